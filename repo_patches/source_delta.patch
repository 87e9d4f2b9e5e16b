From 247cc91f632ce62334ab5b22f6e03f3973c3cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 01/46] fix: let the expansion of a macro in a sequence start
 with a switch

The first token of an expansion was parsed like an argument, so a macro
whose body starts with \bf, \over or the like was rejected, and letters
were not merged.
---
 crates/math-core/src/parser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index ad6ce85..b56f415 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -231,7 +231,18 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     }
                 }
                 // Parse the token.
-                self.parse_token(cur_tokloc, ParseAs::Sequence, prev_class)?
+                match self.parse_one_token(cur_tokloc, ParseAs::Sequence, prev_class)? {
+                    Parsed::Node(class, node) => (class, node),
+                    // An empty expansion leaves an empty row behind, so that it separates the
+                    // atoms around it.
+                    Parsed::Expansion if matches!(self.tokens.peek().token(), Token::Relax) => {
+                        let relax = self.next_token();
+                        self.parse_token(relax, ParseAs::Sequence, prev_class)?
+                    }
+                    // Otherwise, the expansion goes through the loop again, because it may start
+                    // with a token which is only valid in a sequence.
+                    Parsed::Expansion => continue,
+                }
             };
             prev_class = class;
 
-- 
2.43.0


From cce659d8fabd7233c53c448eff667db4d258a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:52 +0000
Subject: [PATCH 02/46] fix: keep & and \\ inside groups and arguments from
 ending up outside of tables

A separator which is not directly in a cell (in a group, an argument, after
a colour or style switch, after an infix fraction or as the base of a
script) produced a separator node in a place where it panicked or was
dropped. A cell now ends switches and infix fractions, and a separator in a
group or argument is an error.
---
 crates/math-core/src/environments.rs | 16 +++++-
 crates/math-core/src/parser.rs       | 76 ++++++++++++++++++++++++----
 2 files changed, 82 insertions(+), 10 deletions(-)

diff --git a/crates/math-core/src/environments.rs b/crates/math-core/src/environments.rs
index f4d4796..f677028 100644
--- a/crates/math-core/src/environments.rs
+++ b/crates/math-core/src/environments.rs
@@ -11,7 +11,10 @@ use mathml_renderer::{
     table::{Alignment, ArraySpec, EquationTag, LineType, RowLabelInfo},
 };
 
-use crate::character_class::{StretchableOp, fenced};
+use crate::{
+    character_class::{StretchableOp, fenced},
+    token::Token,
+};
 
 static ENVIRONMENTS: phf::Map<&'static str, Env> = phf::phf_map! {
     "array" => Env::Array,
@@ -325,6 +328,17 @@ pub struct EnvState<'arena> {
     pub numbered: Option<NumberedEnvState<'arena>>,
 }
 
+impl EnvState<'_> {
+    /// Whether the given token separates cells or rows in this environment.
+    pub(super) fn is_separator(&self, token: &Token) -> bool {
+        match token.unwrap_math_ref() {
+            Token::NewColumn => self.allow_columns,
+            Token::NewLine => self.meaningful_newlines,
+            _ => false,
+        }
+    }
+}
+
 #[derive(Clone, Copy, Debug, Default, PartialEq)]
 pub(super) enum NumberingMode {
     #[default]
diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index b56f415..2e845ff 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -60,6 +60,9 @@ struct ParserState<'arena> {
     /// this is not the case for style-only rows.
     /// This is currently a hack, which should be replaced by a more robust solution later.
     right_boundary_hack: bool,
+    /// `true` if we are directly in a cell of the environment, i.e., not in a group or in some
+    /// other construct nested within the cell. Only there can `&` and `\\` separate cells.
+    in_cell: bool,
     env: EnvState<'arena>,
     /// The current style (display/text/script/scriptscript) for the surrounding group.
     style: Style,
@@ -105,6 +108,8 @@ enum ParseAs {
     /// For an `ArgWithSpace`, operator spacing is significant, so we have to be
     /// careful to set it correctly.
     ArgWithSpace,
+    /// A `&` or `\\` which separates cells. Anywhere else, these tokens are errors.
+    CellSeparator,
 }
 
 impl ParseAs {
@@ -157,6 +162,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 cmd_args: CmdArgs::default(),
                 transform: None,
                 right_boundary_hack: false,
+                in_cell: false,
                 env: EnvState::default(),
                 style,
                 vertical_line_def: None,
@@ -206,13 +212,37 @@ impl<'state, 'arena> Parser<'state, 'arena> {
     ) -> ParseResult<Vec<&'arena Node<'arena>>> {
         let mut nodes = Vec::new();
         let mut infix_frac: Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)> = None;
+        // The index of the first node of the current cell (if this is the body of a table).
+        let mut cell_start = 0usize;
 
         let mut prev_class = prev_class;
         let old_tf = self.state.transform;
         let old_style = self.state.style;
+        // A sequence which is ended by any end token is still part of the same group.
+        let old_in_cell = self.state.in_cell;
+        if let SequenceEnd::EndToken(end_token) = sequence_end {
+            self.state.in_cell = matches!(end_token, EndToken::End);
+        }
 
         // Because we don't want to consume the end token, we just peek here.
         while !sequence_end.matches(self.tokens.peek().token()) {
+            if self.at_cell_separator() {
+                // The separator ends a sequence which is ended by any end token, ...
+                if matches!(sequence_end, SequenceEnd::AnyEndToken) {
+                    break;
+                }
+                // ... and everything that is limited to the current group.
+                self.finish_infix_frac(&mut nodes, cell_start, infix_frac.take());
+                self.state.transform = old_tf;
+                self.state.style = old_style;
+                let separator = self.next_token();
+                let (class, node) =
+                    self.parse_token(separator, ParseAs::CellSeparator, prev_class)?;
+                prev_class = class;
+                nodes.push(node);
+                cell_start = nodes.len();
+                continue;
+            }
             // Check whether we need to collect letters.
             let (class, target) = if let Some(collected) = self.merge_and_transform_letters()? {
                 collected
@@ -224,6 +254,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         tokloc,
                         sequence_end,
                         &mut nodes,
+                        cell_start,
                         &mut infix_frac,
                     )? {
                         ControlFlow::SkipToken => continue,
@@ -271,8 +302,32 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             // If there are superscripts or subscripts, we need to wrap the node we just got into
             // one of the node types for superscripts and subscripts.
         }
+        self.finish_infix_frac(&mut nodes, cell_start, infix_frac);
+        if !keep_end_token {
+            // Discard the end token.
+            self.next_token()?;
+        }
+        self.state.transform = old_tf;
+        self.state.style = old_style;
+        self.state.in_cell = old_in_cell;
+        Ok(nodes)
+    }
+
+    /// Whether the next token is a `&` or `\\` which separates cells of the current environment.
+    fn at_cell_separator(&mut self) -> bool {
+        self.state.in_cell && self.state.env.is_separator(self.tokens.peek().token())
+    }
+
+    /// If the current cell contains an infix fraction, turn the nodes since the infix command
+    /// into its denominator.
+    fn finish_infix_frac(
+        &self,
+        nodes: &mut Vec<&'arena Node<'arena>>,
+        cell_start: usize,
+        infix_frac: Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)>,
+    ) {
         if let Some((numerator, with_line, delim)) = infix_frac {
-            let denominator = mem::replace(&mut nodes, Vec::with_capacity(1));
+            let denominator = nodes.split_off(cell_start);
             let (lt_value, lt_unit) = if with_line {
                 Length::none().into_parts()
             } else {
@@ -303,13 +358,6 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             };
             nodes.push(node);
         }
-        if !keep_end_token {
-            // Discard the end token.
-            self.next_token()?;
-        }
-        self.state.transform = old_tf;
-        self.state.style = old_style;
-        Ok(nodes)
     }
 
     #[inline]
@@ -318,6 +366,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         tokspan: &TokSpan,
         sequence_end: SequenceEnd,
         collected_nodes: &mut Vec<&'arena Node<'arena>>,
+        cell_start: usize,
         infix_frac: &mut Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)>,
     ) -> ParseResult<ControlFlow> {
         let span = tokspan.span().into();
@@ -332,7 +381,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::InfixGenFrac { with_line, delim } => {
                 if infix_frac.is_none() {
-                    *infix_frac = Some((mem::take(collected_nodes), with_line, delim));
+                    *infix_frac = Some((collected_nodes.split_off(cell_start), with_line, delim));
                     // The numerator was already parsed in the surrounding style (we only
                     // learn it's a fraction here), but we can at least shrink the style
                     // for the denominator. `parse_sequence` restores the style on exit.
@@ -1697,6 +1746,15 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     node_vec_to_node(self.arena, &nodes, false),
                 ));
             }
+            Token::NewColumn | Token::NewLine
+                if self.state.env.is_separator(&cur_token)
+                    && !matches!(parse_as, ParseAs::CellSeparator) =>
+            {
+                Err(LatexError(
+                    span.into(),
+                    LatexErrKind::CannotBeUsedAsArgument,
+                ))
+            }
             Token::NewColumn => {
                 if self.state.env.allow_columns {
                     class = Class::Close;
-- 
2.43.0


From 217936ec8bc7ed3bacc85585d85cc0aa58e4eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 03/46] fix: don't set contradictory stretchy attributes on
 \mathbin\big| and the like

---
 crates/math-core/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 2e845ff..828f0f2 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -825,7 +825,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         right: _,
                     } => Ok(Node::Operator {
                         op,
-                        attrs: attrs | OpAttrs::STRETCHY_FALSE,
+                        // The operator of a command like `\big` is explicitly stretchy.
+                        attrs: if attrs.contains(OpAttrs::STRETCHY_TRUE) {
+                            attrs
+                        } else {
+                            attrs | OpAttrs::STRETCHY_FALSE
+                        },
                         left,
                         right,
                         size,
-- 
2.43.0


From 2d57e9695a809d2756e7c73a67fbd21f7106593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 04/46] fix: don't overflow the stack on deeply nested input

The parser and the emission of the nodes recurse for every level of
nesting, and the lexer did so for every comment. Nesting is now limited
(with the existing 'hard limit exceeded' error), and comments are skipped
in a loop.
---
 crates/math-core/src/lexer.rs  | 21 ++++++++++-----------
 crates/math-core/src/parser.rs | 31 ++++++++++++++++++++++++++++++-
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/crates/math-core/src/lexer.rs b/crates/math-core/src/lexer.rs
index e8ceda5..3ad3420 100644
--- a/crates/math-core/src/lexer.rs
+++ b/crates/math-core/src/lexer.rs
@@ -144,15 +144,9 @@ impl<'source> Lexer<'source> {
             return Ok(LexerOutput::Token(TokSpan::new(Token::Whitespace, span)));
         }
 
-        let (loc, ch) = self.read_char();
-        let Some(ch) = ch else {
-            return Ok(LexerOutput::Token(TokSpan::new(
-                Token::Eoi,
-                Span::zero_width(loc),
-            )));
-        };
-        if ch == '%' {
-            // Skip comments.
+        let (mut loc, mut ch) = self.read_char();
+        // Skip comments.
+        while ch == Some('%') {
             while self.peek.1 != Some('\n') && self.peek.1.is_some() {
                 self.read_char();
             }
@@ -160,9 +154,14 @@ impl<'source> Lexer<'source> {
             // TeX skips whitespace on the line after a comment.
             // This also prevents two whitespace tokens following each other.
             self.skip_whitespace();
-            // FIXME: use `become` here when stabilized.
-            return self.next_token();
+            (loc, ch) = self.read_char();
         }
+        let Some(ch) = ch else {
+            return Ok(LexerOutput::Token(TokSpan::new(
+                Token::Eoi,
+                Span::zero_width(loc),
+            )));
+        };
         let mut span = Span::new(loc, loc + ch.len_utf8());
         let tok = match ch {
             '\u{0}' => {
diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 828f0f2..d7fad11 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -75,8 +75,16 @@ struct ParserState<'arena> {
     /// detecting that, we simply stop after a while, as LaTeX and KaTeX do. How long that
     /// takes is configurable; see [`crate::MaxExpansions`].
     expansions_left: u32,
+    /// How many tokens we are currently in the middle of parsing, one inside the other.
+    nesting_depth: u32,
 }
 
+/// The maximum value of [`ParserState::nesting_depth`].
+///
+/// The parser (and later the emission of the nodes) is recursive, so without a limit, deeply
+/// nested input would overflow the stack.
+const MAX_NESTING_DEPTH: u32 = 256;
+
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 enum SequenceEnd {
     EndToken(EndToken),
@@ -167,6 +175,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 style,
                 vertical_line_def: None,
                 expansions_left: parser_cfg.max_expansions.0,
+                nesting_depth: 0,
             },
         })
     }
@@ -513,7 +522,27 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         parse_as: ParseAs,
         prev_class: Class,
     ) -> ParseResult<Parsed<'arena>> {
-        let (cur_token, span) = cur_tokloc?.into_parts();
+        let tokspan = cur_tokloc?;
+        if self.state.nesting_depth >= MAX_NESTING_DEPTH {
+            return Err(Box::new(LatexError(
+                tokspan.span().into(),
+                LatexErrKind::HardLimitExceeded,
+            )));
+        }
+        self.state.nesting_depth += 1;
+        let parsed = self.parse_one_token_unchecked(tokspan, parse_as, prev_class);
+        self.state.nesting_depth -= 1;
+        parsed
+    }
+
+    /// Like [`Self::parse_one_token`], but without keeping track of the nesting depth.
+    fn parse_one_token_unchecked(
+        &mut self,
+        cur_tokspan: TokSpan,
+        parse_as: ParseAs,
+        prev_class: Class,
+    ) -> ParseResult<Parsed<'arena>> {
+        let (cur_token, span) = cur_tokspan.into_parts();
         let mut class = Class::default();
         let next_class = self.peek_class_token(parse_as.in_sequence())?;
         let next_class = if self.state.right_boundary_hack && matches!(next_class, Class::End) {
-- 
2.43.0


From edc4ffd8d620acf549c8eacc3b5ace8f5281599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:00 +0000
Subject: [PATCH 05/46] fix: limit the number of tokens which macro expansion
 may produce

A macro like \def\a#1{\a{#1#1}} doubles its argument with every expansion
and exhausted the memory long before the expansion limit was reached.
---
 crates/math-core/src/parser.rs      | 38 +++++++++++++++++++++++++++++
 crates/math-core/src/token_queue.rs | 15 +++++++++++-
 2 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index d7fad11..e4de841 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -75,6 +75,11 @@ struct ParserState<'arena> {
     /// detecting that, we simply stop after a while, as LaTeX and KaTeX do. How long that
     /// takes is configurable; see [`crate::MaxExpansions`].
     expansions_left: u32,
+    /// How many more tokens the expansion of custom commands may produce.
+    ///
+    /// An argument can be doubled with every expansion, so limiting the number of expansions
+    /// is not enough to keep the amount of memory needed in check.
+    expansion_tokens_left: usize,
     /// How many tokens we are currently in the middle of parsing, one inside the other.
     nesting_depth: u32,
 }
@@ -85,6 +90,9 @@ struct ParserState<'arena> {
 /// nested input would overflow the stack.
 const MAX_NESTING_DEPTH: u32 = 256;
 
+/// The initial value of [`ParserState::expansion_tokens_left`].
+const MAX_EXPANSION_TOKENS: usize = 1 << 20;
+
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 enum SequenceEnd {
     EndToken(EndToken),
@@ -175,6 +183,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 style,
                 vertical_line_def: None,
                 expansions_left: parser_cfg.max_expansions.0,
+                expansion_tokens_left: MAX_EXPANSION_TOKENS,
                 nesting_depth: 0,
             },
         })
@@ -2375,6 +2384,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             Token::CustomCmd(num_args, token_stream) => {
                 self.count_expansion(span)?;
                 self.read_cmd_args(num_args)?;
+                let args = &self.state.cmd_args;
+                let len = token_stream.iter().map(|t| args.substituted_len(t)).sum();
+                self.count_expansion_tokens(len, span)?;
                 self.tokens
                     .queue_body_substituting(token_stream, &self.state.cmd_args, span);
                 return Ok(Parsed::Expansion);
@@ -2382,6 +2394,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             Token::CustomCmdRef(source, num_args, _, start, end) => {
                 self.count_expansion(span)?;
                 self.read_cmd_args(num_args)?;
+                if let Some(body) = self.tokens.stores.get_body(source, start, end) {
+                    let args = &self.state.cmd_args;
+                    let len = body
+                        .iter()
+                        .map(|recorded| match recorded {
+                            RecordedToken::Token(tok) => args.substituted_len(tok),
+                            RecordedToken::CommandName(_) => 1,
+                        })
+                        .sum();
+                    self.count_expansion_tokens(len, span)?;
+                }
                 if !self.tokens.queue_stored_body_substituting(
                     source,
                     start,
@@ -2423,6 +2446,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 // All four alternatives are read, but only the chosen one is queued; the
                 // others are not typeset at all, unlike in LaTeX.
                 self.read_cmd_args(4)?;
+                let len = self.state.cmd_args.get(chosen).len();
+                self.count_expansion_tokens(len, span)?;
                 self.tokens
                     .queue_arg_in_front(self.state.cmd_args.get(chosen), span);
                 return Ok(Parsed::Expansion);
@@ -2764,6 +2789,19 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         Ok(())
     }
 
+    /// Account for the tokens which one expansion of a custom command is about to produce, and
+    /// give up if there were too many.
+    fn count_expansion_tokens(&mut self, num_tokens: usize, span: Span) -> ParseResult<()> {
+        let Some(left) = self.state.expansion_tokens_left.checked_sub(num_tokens) else {
+            return Err(Box::new(LatexError(
+                span.into(),
+                LatexErrKind::HardLimitExceeded,
+            )));
+        };
+        self.state.expansion_tokens_left = left;
+        Ok(())
+    }
+
     /// Read the arguments of a custom command, ready to be substituted into its body.
     ///
     /// The arguments are read as raw token streams; nothing in them is expanded here. They
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 2447548..64d9188 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -163,7 +163,12 @@ impl Stores<'_, '_> {
     }
 
     /// Get the body of a command which is defined in one of the stores.
-    fn get_body(&self, source: CmdSource, start: usize, end: usize) -> Option<&[RecordedToken]> {
+    pub(super) fn get_body(
+        &self,
+        source: CmdSource,
+        start: usize,
+        end: usize,
+    ) -> Option<&[RecordedToken]> {
         match source {
             CmdSource::Config => self.parser_cfg.custom_cmds_from_cfg.body(start, end),
             CmdSource::Document => self.global_state.custom_cmds.body(start, end),
@@ -996,6 +1001,14 @@ impl<'source> CmdArgs<'source> {
         self.tokens.get(start..end).unwrap_or(&[])
     }
 
+    /// The number of tokens which the given token of a body is replaced with.
+    pub(super) fn substituted_len(&self, token: &Token) -> usize {
+        match token {
+            Token::CustomCmdArg(arg_num) => self.get(*arg_num).len(),
+            _ => 1,
+        }
+    }
+
     /// Forget the arguments of the command which was expanded before this one.
     pub(super) fn clear(&mut self) {
         self.tokens.clear();
-- 
2.43.0


From 69f8f2f530d6bc946fde07f2aaa2a710c48c2be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 06/46] fix: escape the names of unknown commands and of
 operators

---
 crates/mathml-renderer/src/ast.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index 5f77263..4964a50 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -356,7 +356,7 @@ impl<'state> Emitter<'state> {
                 name,
             } => {
                 emit_operator_attributes(&mut self.s, attrs, left, right)?;
-                write!(self.s, ">{name}</mo>")?;
+                write!(self.s, ">{}</mo>", EscapeHtml(name))?;
             }
             Node::IdentifierStr(letters) => {
                 // The "<mrow>" with "<mspace/>" is needed to prevent Firefox from adding
@@ -812,8 +812,9 @@ impl<'state> Emitter<'state> {
                 self.warnings.set_unknown_commands();
                 write!(
                     self.s,
-                    r#"<merror class="{}"><mtext>\{cmd_name}</mtext></merror>"#,
-                    self.css_classes.unknown_command
+                    r#"<merror class="{}"><mtext>\{}</mtext></merror>"#,
+                    self.css_classes.unknown_command,
+                    EscapeHtml(cmd_name)
                 )?;
             }
         }
-- 
2.43.0


From 339a00e60514871e5296dbb300ab59d46167677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:26 +0000
Subject: [PATCH 07/46] fix: keep a \label on any row of multline for its
 equation number

---
 crates/math-core/src/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index e4de841..fa658a4 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -24,8 +24,8 @@ use crate::{
     color_defs::get_color,
     custom_cmds::RecordedToken,
     environments::{
-        CLOSE_BRACE, CLOSE_BRACKET, CLOSE_PAREN, Env, EnvState, OPEN_BRACE, OPEN_BRACKET,
-        OPEN_PAREN,
+        CLOSE_BRACE, CLOSE_BRACKET, CLOSE_PAREN, Env, EnvState, NumberingMode, OPEN_BRACE,
+        OPEN_BRACKET, OPEN_PAREN,
     },
     error::{DelimiterModifier, LatexErrKind, LatexError, LimitedUsabilityToken, Place},
     global_state::GlobalState,
@@ -1867,7 +1867,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         self.arena,
                     ) {
                         Ok(tag) => {
-                            let link_target = numbered_state.label.take();
+                            let link_target =
+                                if matches!(numbered_state.mode, NumberingMode::OnlyLast) {
+                                    // The label belongs to the tag on the last row.
+                                    None
+                                } else {
+                                    numbered_state.label.take()
+                                };
                             let label_info = if let Some(tag) = tag {
                                 if let Some(label) = link_target {
                                     self.tokens.stores.global_state.label_map.insert(
-- 
2.43.0


From 259c36427817caf3455de37f7742334d29a05a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 08/46] fix: report the first error when the conversion of a
 delimited formula fails

---
 crates/math-core-cli/src/replace.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/math-core-cli/src/replace.rs b/crates/math-core-cli/src/replace.rs
index c9514b5..db65e55 100644
--- a/crates/math-core-cli/src/replace.rs
+++ b/crates/math-core-cli/src/replace.rs
@@ -185,18 +185,18 @@ impl<'args> Replacer<'args> {
             // Replace HTML entities
             let replaced = replace_html_entities(&mut self.entity_buffer, content);
             // Convert the content and check for error.
-            let is_error = { f(state, &mut result, replaced, open_typ).is_err() };
-            if is_error {
+            let conv_result = f(state, &mut result, replaced, open_typ);
+            if let Err(latex_error) = conv_result {
                 // If we stop on error, return the error together with the snippet.
-                // Unfortunately, due to limitations in the borrow checker, we have to run the
-                // conversion again to get the error.
+                // Unfortunately, due to limitations in the borrow checker, we have to replace the
+                // HTML entities again to do that. (We must not run the conversion again, because
+                // it can have a different result the second time.)
                 // The reason seems to be that the borrow checker cannot tell that when we
                 // return `replaced` here, we are not maintaining the borrow for the next
                 // iteration of the loop.
                 // This is quite unfortunate, but we only have to do this in the error case,
                 // which is hopefully not too common.
                 let replaced = replace_html_entities(&mut self.entity_buffer, content);
-                let latex_error = f(state, &mut result, replaced, open_typ).unwrap_err();
                 return Err(ConversionError(
                     start,
                     ConvErrKind::LatexError(*latex_error, replaced),
-- 
2.43.0


From ec9c903d187639f249777ea4d9e1f17fe27b65b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 09/46] fix: recognize U+FE0F as a variation selector in
 negated operators

---
 crates/math-core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index fa658a4..ae8dc6a 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1255,7 +1255,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         return s.len();
                     };
 
-                    if matches!(snd_char, '\u{FE00}'..'\u{FE0F}') {
+                    if matches!(snd_char, '\u{FE00}'..='\u{FE0F}') {
                         // There's a variation selector (3 bytes in utf8)
                         after_first_char_idx + 3
                     } else {
-- 
2.43.0


From 89e9e5d95ac32e5bc278a5084ccf9c674ab0138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 10/46] fix: find unescaped delimiters which overlap with an
 escaped one

---
 crates/math-core-cli/src/replace.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crates/math-core-cli/src/replace.rs b/crates/math-core-cli/src/replace.rs
index db65e55..e11329d 100644
--- a/crates/math-core-cli/src/replace.rs
+++ b/crates/math-core-cli/src/replace.rs
@@ -241,8 +241,8 @@ impl<'args> Replacer<'args> {
             let end = window.min(input.len());
             let haystack = &input[..end];
 
-            let inline_result = self.find_delimiter_position(haystack, inline_finder, inline_len);
-            let block_result = self.find_delimiter_position(haystack, block_finder, block_len);
+            let inline_result = self.find_delimiter_position(haystack, inline_finder);
+            let block_result = self.find_delimiter_position(haystack, block_finder);
 
             // Take the closest delimiter, with block display taking priority on ties.
             let found = match (inline_result, block_result) {
@@ -277,12 +277,7 @@ impl<'args> Replacer<'args> {
     }
 
     /// Helper function to find the next unescaped delimiter position
-    fn find_delimiter_position(
-        &self,
-        input: &[u8],
-        finder: &Finder,
-        delimiter_len: usize,
-    ) -> Option<usize> {
+    fn find_delimiter_position(&self, input: &[u8], finder: &Finder) -> Option<usize> {
         if !self.ignore_escaped_delim {
             return finder.find(input);
         }
@@ -294,8 +289,9 @@ impl<'args> Replacer<'args> {
 
             // Check if this delimiter is escaped
             if absolute_pos > 0 && input[absolute_pos - 1] == b'\\' {
-                // Skip past this escaped delimiter
-                offset = absolute_pos + delimiter_len;
+                // Skip this escaped delimiter, but not a delimiter which overlaps with it, like
+                // the `$$` at the end of `\$$$`.
+                offset = absolute_pos + 1;
                 continue;
             }
 
-- 
2.43.0


From 5cb943cdcdcca590645bb5cd039233e5d655efab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 11/46] fix: report invalid hexadecimal digits in HTML colors

---
 crates/math-core/src/parser.rs | 41 ++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index ae8dc6a..22109e7 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2038,29 +2038,32 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                             (r as u8, g as u8, b as u8)
                         }
                         "HTML" => {
-                            fn hex(h: u8) -> u8 {
+                            fn hex(h: u8) -> Option<u8> {
                                 match h {
-                                    b'0'..=b'9' => h - b'0',
-                                    b'a'..=b'f' => h - b'a' + 10,
-                                    b'A'..=b'F' => h - b'A' + 10,
-                                    _ => 0,
+                                    b'0'..=b'9' => Some(h - b'0'),
+                                    b'a'..=b'f' => Some(h - b'a' + 10),
+                                    b'A'..=b'F' => Some(h - b'A' + 10),
+                                    _ => None,
                                 }
                             }
-                            match color_description.as_bytes() {
-                                &[r1, r2, g1, g2, b1, b2] => (
-                                    hex(r1) * 16 + hex(r2),
-                                    hex(g1) * 16 + hex(g2),
-                                    hex(b1) * 16 + hex(b2),
-                                ),
-                                _ => {
-                                    break 'color Err(LatexError(
-                                        span,
-                                        LatexErrKind::UnknownColor(KString::from_ref(
-                                            color_description,
-                                        )),
-                                    ));
-                                }
+                            fn byte(h: u8, l: u8) -> Option<u8> {
+                                Some(hex(h)? * 16 + hex(l)?)
                             }
+                            let color = match color_description.as_bytes() {
+                                &[r1, r2, g1, g2, b1, b2] => {
+                                    byte(r1, r2).zip(byte(g1, g2)).zip(byte(b1, b2))
+                                }
+                                _ => None,
+                            };
+                            let Some(((r, g), b)) = color else {
+                                break 'color Err(LatexError(
+                                    span,
+                                    LatexErrKind::UnknownColor(KString::from_ref(
+                                        color_description,
+                                    )),
+                                ));
+                            };
+                            (r, g, b)
                         }
                         unexpected => {
                             break 'color Err(LatexError(
-- 
2.43.0


From e455db458c2ebd9eb9c0d01e5f9603f2919ccfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 12/46] fix: let errors inside the expansion of a command point
 at that command

---
 crates/math-core/src/token_queue.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 64d9188..25e5384 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -558,7 +558,8 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                 Token::CustomCmdArg(arg_num) => {
                     push_arg_front(&mut self.queue, args.get(arg_num), span);
                 }
-                tok => self.queue.push_front(tok.into()),
+                // A body carries no spans of its own, so errors point at the command.
+                tok => self.queue.push_front(TokSpan::new(tok, span).into()),
             }
         }
         self.update_next_non_whitespace();
@@ -596,21 +597,20 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                 RecordedToken::Token(Token::CustomCmdArg(arg_num)) => {
                     push_arg_front(&mut self.queue, args.get(*arg_num), span);
                 }
-                RecordedToken::Token(tok) => self.queue.push_front((*tok).into()),
+                // A body carries no spans of its own, so errors in it have to point at the command
+                // we are expanding.
+                RecordedToken::Token(tok) => {
+                    self.queue.push_front(TokSpan::new(*tok, span).into());
+                }
                 // A command which the body only refers to by name gets its meaning here, so a
                 // command which didn't exist when the body was recorded may exist by now, and
                 // one which has been redefined since means something else now.
                 RecordedToken::CommandName(name) => {
-                    let queued = match self.stores.resolve_command(name) {
-                        Some(tok) => tok.into(),
-                        // A body carries no spans of its own, so if the command is still not
-                        // defined, the error has to point at the command we are expanding.
-                        None => {
-                            let name = self.cmd_names.intern(name);
-                            TokSpan::new(Token::UnresolvedCommand(name), span).into()
-                        }
-                    };
-                    self.queue.push_front(queued);
+                    let tok = self
+                        .stores
+                        .resolve_command(name)
+                        .unwrap_or_else(|| Token::UnresolvedCommand(self.cmd_names.intern(name)));
+                    self.queue.push_front(TokSpan::new(tok, span).into());
                 }
             }
         }
-- 
2.43.0


From 8978de22b1ba72c0b0885b2312570968b439b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 13/46] fix: let errors in the expansion of \dots point at that
 command

---
 crates/math-core/src/parser.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 22109e7..4ce85d7 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2153,12 +2153,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             Token::Dots => {
                 let next_token_is_mathbin_or_mathrel =
                     matches!(next_class, Class::BinaryOp | Class::Relation);
+                let body = if next_token_is_mathbin_or_mathrel {
+                    predefined::CDOTS
+                } else {
+                    predefined::DOTS
+                };
                 self.tokens
-                    .queue_in_front(if next_token_is_mathbin_or_mathrel {
-                        &predefined::CDOTS
-                    } else {
-                        &predefined::DOTS
-                    });
+                    .queue_in_front(&body.map(|tok| TokSpan::new(tok, span)));
                 return Ok(Parsed::Expansion);
             }
             Token::Prescript => {
-- 
2.43.0


From 01e3885a22a38044e6d41d6b8d44db79fd107b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 14/46] fix: don't accept the } of the surrounding group as the
 argument of a custom command

---
 crates/math-core/src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 4ce85d7..fc75c24 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2834,6 +2834,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         LatexErrKind::ExpectedArgumentGotEOI,
                     )));
                 }
+                // The `}` belongs to the group around the command.
+                Token::GroupEnd => {
+                    return Err(Box::new(LatexError(
+                        queued.span().into(),
+                        LatexErrKind::ExpectedArgumentGotClose,
+                    )));
+                }
                 // An argument which isn't a group consists of a single token.
                 _ => self.state.cmd_args.push(queued),
             }
-- 
2.43.0


From 50e2229fc47cfa235396bca84fd4f18f4e48faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 15/46] fix: keep error ranges ordered when macro arguments are
 swapped

---
 crates/math-core/src/parser.rs      | 9 +++++----
 crates/math-core/src/token_queue.rs | 8 +++++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index fc75c24..0265eb6 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -3202,6 +3202,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
     /// but `\kern1 1em` is not.
     fn parse_kern_or_skip(&mut self, kind: UnitKind, span_end: usize) -> ParseResult<Node<'arena>> {
         let mut arg_start: Option<usize> = None;
+        // Tokens that come from the arguments of a custom command may be out of order.
         let mut arg_end = span_end;
 
         // An optional sign.
@@ -3210,7 +3211,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             is_negative = sign == '-';
             let span = self.tokens.next()?.span();
             arg_start.get_or_insert(span.start());
-            arg_end = span.end();
+            arg_end = arg_end.max(span.end());
         }
 
         // The value: digits with at most one decimal separator (`.` or `,`).
@@ -3233,7 +3234,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             let span = self.tokens.next()?.span();
             in_number = true;
             arg_start.get_or_insert(span.start());
-            arg_end = span.end();
+            arg_end = arg_end.max(span.end());
         }
         let value: &str = &buf;
         if value.is_empty() {
@@ -3267,14 +3268,14 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let start = unit_start.unwrap_or(peek_span.start());
                 let unit_str = core::str::from_utf8(&unit[..i]).unwrap_or("");
                 return Err(Box::new(LatexError(
-                    start..peek_span.start(),
+                    start..peek_span.start().max(start),
                     LatexErrKind::InvalidUnit(KString::from_ref(unit_str)),
                 )));
             };
             unit[i] = unit_char as u8;
             let span = self.tokens.next()?.span();
             unit_start.get_or_insert(span.start());
-            arg_end = span.end();
+            arg_end = arg_end.max(span.end());
         }
         let unit = core::str::from_utf8(&unit).unwrap_or("");
 
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 25e5384..ea56e4a 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -921,7 +921,13 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             let mut tokens = Vec::new();
             // Read until the matching `}`.
             let end_loc = self.record_group(&mut tokens, preserve_all)?;
-            Ok(MacroArgument::Group(tokens, first.span().start()..end_loc))
+            // The tokens may come from different arguments of a custom command, so the end of
+            // the group is not necessarily behind its start.
+            let span = first.span();
+            Ok(MacroArgument::Group(
+                tokens,
+                span.start()..end_loc.max(span.end()),
+            ))
         } else {
             Ok(MacroArgument::Token(first))
         }
-- 
2.43.0


From 68684b1ad13bc4b63c84a152a68e3ac688d07c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 16/46] fix: keep all of a built-in command which stands for an
 argument

---
 crates/math-core/src/parser.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 0265eb6..6200678 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2158,8 +2158,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 } else {
                     predefined::DOTS
                 };
-                self.tokens
-                    .queue_in_front(&body.map(|tok| TokSpan::new(tok, span)));
+                let body = body.map(|tok| TokSpan::new(tok, span));
+                if parse_as.in_sequence() {
+                    self.tokens.queue_in_front(&body);
+                } else {
+                    // All of the dots belong to the argument.
+                    self.tokens
+                        .queue_in_front(&[TokSpan::new(Token::GroupEnd, span)]);
+                    self.tokens.queue_in_front(&body);
+                    self.tokens
+                        .queue_in_front(&[TokSpan::new(Token::GroupBegin, span)]);
+                }
                 return Ok(Parsed::Expansion);
             }
             Token::Prescript => {
@@ -2397,8 +2406,19 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let args = &self.state.cmd_args;
                 let len = token_stream.iter().map(|t| args.substituted_len(t)).sum();
                 self.count_expansion_tokens(len, span)?;
+                // How many tokens a built-in command is made of is an implementation detail,
+                // so where it stands for an argument, all of them belong to the argument.
+                let needs_group = !parse_as.in_sequence() && token_stream.len() > 1;
+                if needs_group {
+                    self.tokens
+                        .queue_in_front(&[TokSpan::new(Token::GroupEnd, span)]);
+                }
                 self.tokens
                     .queue_body_substituting(token_stream, &self.state.cmd_args, span);
+                if needs_group {
+                    self.tokens
+                        .queue_in_front(&[TokSpan::new(Token::GroupBegin, span)]);
+                }
                 return Ok(Parsed::Expansion);
             }
             Token::CustomCmdRef(source, num_args, _, start, end) => {
-- 
2.43.0


From c54285c1aa806fcf68c7ddcbc6749c8c73ef6df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:00 +0000
Subject: [PATCH 17/46] fix: attach scripts at the start of a custom command's
 expansion to the preceding atom

---
 crates/math-core/src/parser.rs      |  9 ++++++++
 crates/math-core/src/token_queue.rs | 32 +++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 6200678..77e4561 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2894,6 +2894,15 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let mut ret: BoundsWithLimits = BoundsWithLimits::default();
 
         loop {
+            if first.is_none()
+                && matches!(self.tokens.peek().token(), Token::CustomCmdRef(..))
+                && self.tokens.expansion_starts_with_bound()
+            {
+                // The bounds come from a custom command, so expand it first.
+                let custom_cmd = self.next_token();
+                self.parse_one_token(custom_cmd, ParseAs::Sequence, Class::Default)?;
+                continue;
+            }
             // retrieve and consume next token
             let (next_token, next_span) = first
                 .as_ref()
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index ea56e4a..0c86a85 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -498,6 +498,38 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         }
     }
 
+    /// Whether the next token is a custom command whose expansion starts with something that
+    /// belongs to the preceding atom: a subscript, a superscript, a prime or `\limits`.
+    pub(super) fn expansion_starts_with_bound(&self) -> bool {
+        // A definition which begins with itself would go on forever.
+        const MAX_DEPTH: usize = 100;
+        let mut tok = self.peek().token();
+        let mut resolved: Token;
+        for _ in 0..MAX_DEPTH {
+            let Token::CustomCmdRef(source, _, _, start, end) = *tok else {
+                return matches!(
+                    tok.unwrap_math_ref(),
+                    Token::Underscore | Token::Circumflex | Token::Prime(_) | Token::Limits(_)
+                );
+            };
+            let body = self.stores.get_body(source, start, end);
+            let is_whitespace =
+                |rec: &&RecordedToken| matches!(rec, RecordedToken::Token(Token::Whitespace));
+            tok = match body.and_then(|body| body.iter().find(|rec| !is_whitespace(rec))) {
+                Some(RecordedToken::Token(tok)) => tok,
+                Some(RecordedToken::CommandName(name)) => {
+                    match self.stores.resolve_command(name) {
+                        Some(tok) => resolved = tok,
+                        None => return false,
+                    }
+                    &resolved
+                }
+                None => return false,
+            };
+        }
+        false
+    }
+
     /// Queue a stream of tokens in the front of the buffer.
     ///
     /// We use a ring buffer, so this is efficient as long as the number of tokens is not too large.
-- 
2.43.0


From 0ce66c64df53bb29aaa22fb2903044a54335d62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:20 +0000
Subject: [PATCH 18/46] fix: leave the unassigned U+03A2 alone in math fonts

---
 crates/mathml-renderer/src/attribute.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/mathml-renderer/src/attribute.rs b/crates/mathml-renderer/src/attribute.rs
index eb9d036..2a21f1e 100644
--- a/crates/mathml-renderer/src/attribute.rs
+++ b/crates/mathml-renderer/src/attribute.rs
@@ -263,7 +263,7 @@ impl TextTransform {
             TextTransform::BoldItalic => match c {
                 'A'..='Z' => Some(add_offset(c, 0x1D427)),
                 'a'..='z' => Some(add_offset(c, 0x1D421)),
-                'Α'..='Ω' => Some(add_offset(c, 0x1D38B)),
+                'Α'..='Ρ' | 'Σ'..='Ω' => Some(add_offset(c, 0x1D38B)),
                 'α'..='ω' => Some(add_offset(c, 0x1D385)),
                 'ϴ' => Some('𝜭'),
                 '∇' => Some('𝜵'),
@@ -279,7 +279,7 @@ impl TextTransform {
             TextTransform::Bold => match c {
                 'A'..='Z' => Some(add_offset(c, 0x1D3BF)),
                 'a'..='z' => Some(add_offset(c, 0x1D3B9)),
-                'Α'..='Ω' => Some(add_offset(c, 0x1D317)),
+                'Α'..='Ρ' | 'Σ'..='Ω' => Some(add_offset(c, 0x1D317)),
                 'α'..='ω' => Some(add_offset(c, 0x1D311)),
                 'Ϝ'..='ϝ' => Some(add_offset(c, 0x1D3EE)),
                 '0'..='9' => Some(add_offset(c, 0x1D79E)),
@@ -340,7 +340,7 @@ impl TextTransform {
             TextTransform::SansSerifBoldItalic => match c {
                 'A'..='Z' => Some(add_offset(c, 0x1D5FB)),
                 'a'..='z' => Some(add_offset(c, 0x1D5F5)),
-                'Α'..='Ω' => Some(add_offset(c, 0x1D3FF)),
+                'Α'..='Ρ' | 'Σ'..='Ω' => Some(add_offset(c, 0x1D3FF)),
                 'α'..='ω' => Some(add_offset(c, 0x1D3F9)),
                 'ϴ' => Some('𝞡'),
                 '∇' => Some('𝞩'),
@@ -361,7 +361,7 @@ impl TextTransform {
             TextTransform::BoldSansSerif => match c {
                 'A'..='Z' => Some(add_offset(c, 0x1D593)),
                 'a'..='z' => Some(add_offset(c, 0x1D58D)),
-                'Α'..='Ω' => Some(add_offset(c, 0x1D3C5)),
+                'Α'..='Ρ' | 'Σ'..='Ω' => Some(add_offset(c, 0x1D3C5)),
                 'α'..='ω' => Some(add_offset(c, 0x1D3BF)),
                 '0'..='9' => Some(add_offset(c, 0x1D7BC)),
                 'ϴ' => Some('𝝧'),
@@ -396,7 +396,7 @@ impl TextTransform {
             TextTransform::Italic => match c {
                 'A'..='Z' => Some(add_offset(c, 0x1D3F3)),
                 'a'..='g' | 'i'..='z' => Some(add_offset(c, 0x1D3ED)),
-                'Α'..='Ω' => Some(add_offset(c, 0x1D351)),
+                'Α'..='Ρ' | 'Σ'..='Ω' => Some(add_offset(c, 0x1D351)),
                 'α'..='ω' => Some(add_offset(c, 0x1D34B)),
                 'h' => Some('ℎ'),
                 'ı' => Some('𝚤'),
-- 
2.43.0


From 760365902d6f65d6291a03c60fdf238f2217be01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:49 +0000
Subject: [PATCH 19/46] fix: convert inches with TeX's 72.27 points per inch,
 like centimetres

---
 crates/math-core/src/specifications.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math-core/src/specifications.rs b/crates/math-core/src/specifications.rs
index 055d882..27aacfa 100644
--- a/crates/math-core/src/specifications.rs
+++ b/crates/math-core/src/specifications.rs
@@ -53,7 +53,7 @@ impl LatexUnit {
             LatexUnit::Pt => Length::new(0.1 * value, Rem),
             LatexUnit::Mm => Length::new(0.28453 * value, Rem),
             LatexUnit::Cm => Length::new(2.8453 * value, Rem),
-            LatexUnit::In => Length::new(7.2 * value, Rem),
+            LatexUnit::In => Length::new(7.227 * value, Rem),
             LatexUnit::Ex => Length::new(value, Ex),
             LatexUnit::Em => Length::new(value, Em),
             LatexUnit::Mu => Length::new(0.055555556 * value, Em),
-- 
2.43.0


From ecb7d6f283381f1f810445ee8da23c478b9a3f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:26 +0000
Subject: [PATCH 20/46] fix: report the actual problem with the argument of
 \color[...]

---
 crates/math-core/src/parser.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 77e4561..e8eda4e 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1974,12 +1974,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         }
                     }
                     let type_name = type_name_builder.finish(self.arena);
-                    let Ok((color_description, span)) = self.parse_string_literal() else {
-                        break 'color Err(LatexError(
-                            span.into(),
-                            LatexErrKind::ExpectedArgumentGotEOI,
-                        ));
-                    };
+                    let (color_description, span) = self.parse_string_literal()?;
                     match type_name {
                         "rgb" => {
                             let mut parts = split_on_ascii(color_description, b',');
@@ -3359,10 +3354,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         for tokspan in tokens {
             let (tok, span) = tokspan.into_parts();
             let Some(ch) = recover_limited_ascii(tok) else {
-                return Err(Box::new(LatexError(
-                    span.into(),
-                    LatexErrKind::ExpectedAscii,
-                )));
+                let kind = if matches!(tok, Token::Eoi) {
+                    LatexErrKind::ExpectedArgumentGotEOI
+                } else {
+                    LatexErrKind::ExpectedAscii
+                };
+                return Err(Box::new(LatexError(span.into(), kind)));
             };
             builder.push_char(ch);
         }
-- 
2.43.0


From bf3708489dfe07ae05ce0fc1caf3081ba0f3e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:06 +0000
Subject: [PATCH 21/46] fix: keep the size of a \big delimiter which is alone
 in a group

---
 crates/math-core/src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index e8eda4e..0513b1d 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -3517,13 +3517,16 @@ pub(crate) fn node_vec_to_node<'arena>(
 ) -> &'arena Node<'arena> {
     if let [single] = nodes {
         if reset_spacing {
-            if let Node::Operator { op, attrs, .. } = **single {
+            if let Node::Operator {
+                op, attrs, size, ..
+            } = **single
+            {
                 arena.push(Node::Operator {
                     op,
                     attrs,
                     left: None,
                     right: None,
-                    size: None,
+                    size,
                 })
             } else {
                 single
-- 
2.43.0


From a8c486f3deced12242db28552a8e58be38a49b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 22/46] fix: keep an operand which is not a sequence to one
 command or one digit

\mathrel\And, \not\ldots and \mathrel 12 applied the first command to the first
token of the expansion, or to all of the digits.
---
 crates/math-core/src/parser.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 0513b1d..2f72c94 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -280,7 +280,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     }
                 }
                 // Parse the token.
-                match self.parse_one_token(cur_tokloc, ParseAs::Sequence, prev_class)? {
+                match self.parse_one_token(cur_tokloc, ParseAs::Sequence, prev_class, false)? {
                     Parsed::Node(class, node) => (class, node),
                     // An empty expansion leaves an empty row behind, so that it separates the
                     // atoms around it.
@@ -517,7 +517,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
     ) -> ParseResult<(Class, &'arena Node<'arena>)> {
         let mut cur_tokloc = cur_tokloc;
         loop {
-            match self.parse_one_token(cur_tokloc, parse_as, prev_class)? {
+            match self.parse_one_token(cur_tokloc, parse_as, prev_class, true)? {
                 Parsed::Node(class, node) => return Ok((class, node)),
                 Parsed::Expansion => cur_tokloc = self.next_token(),
             }
@@ -525,11 +525,15 @@ impl<'state, 'arena> Parser<'state, 'arena> {
     }
 
     /// Parse one token into a node, or into the first token of its expansion.
+    ///
+    /// If `single` is set, the node is needed on its own, as an argument or as what a command
+    /// like `\mathrel` is applied to. Otherwise, it is one of the nodes of a sequence.
     fn parse_one_token(
         &mut self,
         cur_tokloc: ParseResult<TokSpan>,
         parse_as: ParseAs,
         prev_class: Class,
+        single: bool,
     ) -> ParseResult<Parsed<'arena>> {
         let tokspan = cur_tokloc?;
         if self.state.nesting_depth >= MAX_NESTING_DEPTH {
@@ -539,7 +543,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             )));
         }
         self.state.nesting_depth += 1;
-        let parsed = self.parse_one_token_unchecked(tokspan, parse_as, prev_class);
+        let parsed = self.parse_one_token_unchecked(tokspan, parse_as, prev_class, single);
         self.state.nesting_depth -= 1;
         parsed
     }
@@ -550,6 +554,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         cur_tokspan: TokSpan,
         parse_as: ParseAs,
         prev_class: Class,
+        single: bool,
     ) -> ParseResult<Parsed<'arena>> {
         let (cur_token, span) = cur_tokspan.into_parts();
         let mut class = Class::default();
@@ -569,7 +574,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 }
                 let mut builder = self.buffer.get_builder();
                 builder.push_char(number);
-                if matches!(parse_as, ParseAs::Sequence) {
+                if matches!(parse_as, ParseAs::Sequence) && !single {
                     // Consume tokens as long as they are `Token::Number` or
                     // `Token::Letter('.')`,
                     // but the latter only if the token *after that* is a digit.
@@ -2154,7 +2159,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     predefined::DOTS
                 };
                 let body = body.map(|tok| TokSpan::new(tok, span));
-                if parse_as.in_sequence() {
+                if !single {
                     self.tokens.queue_in_front(&body);
                 } else {
                     // All of the dots belong to the argument.
@@ -2403,7 +2408,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 self.count_expansion_tokens(len, span)?;
                 // How many tokens a built-in command is made of is an implementation detail,
                 // so where it stands for an argument, all of them belong to the argument.
-                let needs_group = !parse_as.in_sequence() && token_stream.len() > 1;
+                let needs_group = single && token_stream.len() > 1;
                 if needs_group {
                     self.tokens
                         .queue_in_front(&[TokSpan::new(Token::GroupEnd, span)]);
@@ -2895,7 +2900,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             {
                 // The bounds come from a custom command, so expand it first.
                 let custom_cmd = self.next_token();
-                self.parse_one_token(custom_cmd, ParseAs::Sequence, Class::Default)?;
+                self.parse_one_token(custom_cmd, ParseAs::Sequence, Class::Default, false)?;
                 continue;
             }
             // retrieve and consume next token
-- 
2.43.0


From 3cc83dd5e8c3c3448dec836c5591fd0f39fbb803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 23/46] fix: no spacing around \mathop and the like where they
 are arguments

There are no other atoms to keep a distance from, so that x^\mathop a is the
same as x^{\mathop a}.
---
 crates/math-core/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 2f72c94..ec7e576 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -859,6 +859,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         self.state.mathinner_spacing(prev_class, next_class, true)
                     }
                 };
+                let (left, right) = if parse_as.in_sequence() {
+                    (left, right)
+                } else {
+                    // There are no other atoms to keep a distance from.
+                    (Some(MathSpacing::Zero), Some(MathSpacing::Zero))
+                };
                 match *node {
                     Node::Operator {
                         op,
-- 
2.43.0


From 639aa135df85f45e24121debf1bb50907d204bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 24/46] fix: keep the boundary of \overset's target to its own
 level

The end of a group nested in the target of \overset, and the arguments of
\xrightarrow, are boundaries of their own; and where \overset is an argument, the
tokens behind it do not matter for the spacing inside.
---
 crates/math-core/src/parser.rs | 96 +++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 49 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index ec7e576..83e5aa2 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -119,6 +119,9 @@ enum ParseAs {
     /// A continued sequence keeps the previous sequence state even if a new group is
     /// started.
     ContinueSequence,
+    /// Like `ContinueSequence`, but as part of an argument, so that the tokens which follow are
+    /// not part of the sequence.
+    ContinueArg,
     /// For an `Arg`, all spacing is ignored, so we may as well strip it away.
     Arg,
     /// For an `ArgWithSpace`, operator spacing is significant, so we have to be
@@ -131,7 +134,10 @@ enum ParseAs {
 impl ParseAs {
     #[inline]
     fn in_sequence(self) -> bool {
-        matches!(self, ParseAs::Sequence | ParseAs::ContinueSequence)
+        matches!(
+            self,
+            ParseAs::Sequence | ParseAs::ContinueSequence | ParseAs::ContinueArg
+        )
     }
 }
 
@@ -217,6 +223,14 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         self.parse_sequence(sequence_end, prev_class, keep_end_token)
     }
 
+    /// Parse a sequence of tokens which has boundaries of its own, and consume the end token.
+    fn parse_group(&mut self, end_token: EndToken) -> ParseResult<Vec<&'arena Node<'arena>>> {
+        let old_boundary_hack = mem::replace(&mut self.state.right_boundary_hack, false);
+        let nodes = self.parse_sequence(SequenceEnd::EndToken(end_token), Class::Open, false)?;
+        self.state.right_boundary_hack = old_boundary_hack;
+        Ok(nodes)
+    }
+
     /// Parse a sequence of tokens until the given end token is encountered.
     ///
     /// If `keep_end_token` is set to `true`, this function does not consume the end token.
@@ -558,12 +572,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
     ) -> ParseResult<Parsed<'arena>> {
         let (cur_token, span) = cur_tokspan.into_parts();
         let mut class = Class::default();
-        let next_class = self.peek_class_token(parse_as.in_sequence())?;
-        let next_class = if self.state.right_boundary_hack && matches!(next_class, Class::End) {
-            Class::Default
-        } else {
-            next_class
-        };
+        let next_class = self.peek_class_token(parse_as)?;
         let node: Result<Node, LatexError> = match cur_token {
             Token::Digit(number) => 'digit: {
                 if let Some(MathVariant::Transform(tf)) = self.state.transform {
@@ -818,7 +827,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let tok_span = self.next_token()?;
                 let (_, node) = self.parse_token(Ok(tok_span), parse_as, prev_class)?;
                 // Recompute the next class:
-                let next_class = self.peek_class_token(parse_as.in_sequence())?;
+                let next_class = self.peek_class_token(parse_as)?;
                 let (left, right) = match kind {
                     MathClassKind::Ord => {
                         class = Class::Default;
@@ -980,12 +989,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 if let Ok(tokloc) = &next
                     && matches!(tokloc.token(), Token::SquareBracketOpen)
                 {
-                    // FIXME: We should perhaps use set `right_boundary_hack` here.
-                    let degree = self.parse_sequence(
-                        SequenceEnd::EndToken(EndToken::SquareBracketClose),
-                        Class::Open,
-                        false,
-                    )?;
+                    let degree = self.parse_group(EndToken::SquareBracketClose)?;
                     let content = self.parse_next(ParseAs::Arg)?;
                     Ok(Node::Root(
                         node_vec_to_node(self.arena, &degree, true),
@@ -1118,8 +1122,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 self.state.style = old_style;
                 let token = self.next_token();
                 let old_boundary_hack = mem::replace(&mut self.state.right_boundary_hack, true);
-                let (cls, target) =
-                    self.parse_token(token, ParseAs::ContinueSequence, prev_class)?;
+                let target_as = if matches!(parse_as, ParseAs::Sequence | ParseAs::ContinueSequence)
+                {
+                    ParseAs::ContinueSequence
+                } else {
+                    ParseAs::ContinueArg
+                };
+                let (cls, target) = self.parse_token(token, target_as, prev_class)?;
                 self.state.right_boundary_hack = old_boundary_hack;
                 class = cls;
                 if matches!(cur_token, Token::Overset) {
@@ -1383,15 +1392,16 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 })
             }
             Token::GroupBegin => {
-                let content = self.parse_sequence(
-                    SequenceEnd::EndToken(EndToken::GroupClose),
-                    if matches!(parse_as, ParseAs::ContinueSequence) {
-                        prev_class
+                let content =
+                    if matches!(parse_as, ParseAs::ContinueSequence | ParseAs::ContinueArg) {
+                        self.parse_sequence(
+                            SequenceEnd::EndToken(EndToken::GroupClose),
+                            prev_class,
+                            false,
+                        )?
                     } else {
-                        Class::Open
-                    },
-                    false,
-                )?;
+                        self.parse_group(EndToken::GroupClose)?
+                    };
                 return Ok(Parsed::Node(
                     Class::Default,
                     node_vec_to_node(self.arena, &content, matches!(parse_as, ParseAs::Arg)),
@@ -1460,11 +1470,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 } else {
                     Some(extract_delimiter(tok_loc, DelimiterModifier::Left)?)
                 };
-                let content = self.parse_sequence(
-                    SequenceEnd::EndToken(EndToken::Right),
-                    Class::Open,
-                    false,
-                )?;
+                let content = self.parse_group(EndToken::Right)?;
                 let tok_loc = self.next_token()?;
                 let close_paren = if matches!(tok_loc.token(), &FULL_STOP_TOKEN) {
                     None
@@ -1512,7 +1518,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 // and delimiter spacing.
                 let (left, right) = if matches!(paren_type, Some(ParenType::Middle)) {
                     // We need to achieve relation spacing here.
-                    let next_class = self.peek_class_token(parse_as.in_sequence())?;
+                    let next_class = self.peek_class_token(parse_as)?;
                     if matches!(paren.spacing, DelimiterSpacing::InfixRelation) {
                         attrs |= OpAttrs::FORM_INFIX;
                     }
@@ -1594,6 +1600,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
 
                 let old_style = mem::replace(&mut self.state.style, env.style());
                 let old_env_state = mem::replace(&mut self.state.env, env.new_state());
+                let old_boundary_hack = mem::replace(&mut self.state.right_boundary_hack, false);
 
                 let content = self.arena.push_slice(&self.parse_sequence_if_in_sequence(
                     parse_as,
@@ -1605,6 +1612,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
 
                 self.state.style = old_style;
                 let env_state = mem::replace(&mut self.state.env, old_env_state);
+                self.state.right_boundary_hack = old_boundary_hack;
                 let numbered_state = env_state.numbered;
 
                 // Get the \end{env} token in order to verify that it matches the \begin{env}.
@@ -2328,11 +2336,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 // considerations; the class of the whole construct is that of a relation.
                 class = Class::Relation;
 
-                // Parse the over-argument in the same state the original token-stream
-                // expansion used: `style` is set by the outer `\overset`, and
-                // `right_boundary_hack` is set by the inner `\overset`'s target group.
+                // The arguments are set in the style of scripts.
                 let old_style = mem::replace(&mut self.state.style, Style::Script);
-                let old_boundary_hack = mem::replace(&mut self.state.right_boundary_hack, true);
 
                 // Optional under-argument in square brackets (e.g. `\xrightarrow[a]{b}`),
                 // handled in the same style as `\sqrt`'s optional degree argument.
@@ -2340,11 +2345,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let (under_arg, over_arg) = if let Ok(tokloc) = &next
                     && matches!(tokloc.token(), Token::SquareBracketOpen)
                 {
-                    let nodes = self.parse_sequence(
-                        SequenceEnd::EndToken(EndToken::SquareBracketClose),
-                        Class::Open,
-                        false,
-                    )?;
+                    let nodes = self.parse_group(EndToken::SquareBracketClose)?;
                     let under = node_vec_to_node(self.arena, &nodes, false);
                     let over = self.parse_next(ParseAs::Arg)?;
                     (Some(under), over)
@@ -2354,9 +2355,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 };
 
                 self.state.style = old_style;
-                self.state.right_boundary_hack = old_boundary_hack;
                 // Re-compute the next class.
-                let next_class = self.peek_class_token(parse_as.in_sequence())?;
+                let next_class = self.peek_class_token(parse_as)?;
 
                 let pad = &const { Node::Space(LatexUnit::Em.length_with_unit(0.4286)) };
                 let label_space = &const { Node::Space(LatexUnit::Em.length_with_unit(3.5)) };
@@ -2978,11 +2978,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 self.tokens.next()?; // skip over group begin token
 
                 let bounds = self.get_bounds(None)?;
-                let after_bounds = self.parse_sequence(
-                    SequenceEnd::EndToken(EndToken::GroupClose),
-                    Class::Open,
-                    false,
-                )?;
+                let after_bounds = self.parse_group(EndToken::GroupClose)?;
                 Ok((bounds, after_bounds))
             }
             Token::Limits(kind) => {
@@ -3134,7 +3130,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
     ) -> ParseResult<(Option<MathSpacing>, Option<MathSpacing>)> {
         // We re-determine the next class here, because the next token may have changed
         // because we discarded bounds tokens.
-        let next_class = self.peek_class_token(parse_as.in_sequence())?;
+        let next_class = self.peek_class_token(parse_as)?;
         Ok((
             if matches!(
                 prev_class,
@@ -3377,8 +3373,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         Ok((builder.finish(self.arena), span))
     }
 
-    fn peek_class_token(&mut self, in_sequence: bool) -> ParseResult<Class> {
-        if !in_sequence {
+    fn peek_class_token(&mut self, parse_as: ParseAs) -> ParseResult<Class> {
+        if !parse_as.in_sequence() || matches!(parse_as, ParseAs::ContinueArg) {
             return Ok(Class::Default);
         }
         let (token_idx, class) = self.tokens.peek_class_token()?;
@@ -3399,6 +3395,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     Class::Close
                 }
             })
+        } else if self.state.right_boundary_hack && matches!(class, Class::End) {
+            Ok(Class::Default)
         } else {
             Ok(class)
         }
-- 
2.43.0


From f47f8396ede1ec9a7c3d598dfc80cffb567ff2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 25/46] fix: blanks in front of the argument of \raisebox are
 not its text

---
 crates/math-core/src/text_parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/math-core/src/text_parser.rs b/crates/math-core/src/text_parser.rs
index 50a76f4..f58923e 100644
--- a/crates/math-core/src/text_parser.rs
+++ b/crates/math-core/src/text_parser.rs
@@ -155,6 +155,8 @@ impl<'arena> Parser<'_, 'arena> {
                         Ok(symbol::RIGHT_SQUARE_BRACKET.as_op().as_superchar())
                     }
                     Token::Digit(digit) => Ok(digit.into()),
+                    // Blanks in front of an argument are not part of it.
+                    Token::Whitespace if str_builder.is_none() => continue,
                     Token::Whitespace | Token::NonBreakingSpace => {
                         Ok(SuperChar::from_char(symbol::NO_BREAK_SPACE))
                     }
-- 
2.43.0


From effa4776387dd767467cc1a8ab03fc76dae017b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 26/46] fix: end the text where the argument of \text is a
 command with an argument

\text\textbf{a} took everything up to the next unmatched closing brace as text.
---
 crates/math-core/src/text_parser.rs | 94 +++++++++++++++--------------
 1 file changed, 49 insertions(+), 45 deletions(-)

diff --git a/crates/math-core/src/text_parser.rs b/crates/math-core/src/text_parser.rs
index f58923e..4f504e8 100644
--- a/crates/math-core/src/text_parser.rs
+++ b/crates/math-core/src/text_parser.rs
@@ -33,7 +33,9 @@ impl<'arena> Parser<'_, 'arena> {
         initial_voffset: Option<LengthSet>,
         text_mode: bool,
     ) -> ParseResult<Vec<TextSnippet<'arena>>> {
-        let mut style_stack = vec![(0usize, initial_style, initial_voffset)];
+        // Besides the style, each entry records the brace nesting outside of its scope, and whether
+        // there is a group outside, which still has to be closed when the scope ends.
+        let mut style_stack = vec![(0usize, initial_style, initial_voffset, false)];
         let mut str_builder: Option<StringBuilder> = None;
         let mut snippets: Vec<TextSnippet<'arena>> = Vec::new();
         let mut accent_to_insert: Option<char> = None;
@@ -44,9 +46,7 @@ impl<'arena> Parser<'_, 'arena> {
         // reset on every style push, so the nesting level alone would be ambiguous.)
         let mut size_stack: Vec<(usize, usize, HtmlTextSize)> = Vec::new();
 
-        while let Some((previous_nesting, current_style, current_voffset)) =
-            style_stack.last().copied()
-        {
+        while let Some((_, current_style, current_voffset, _)) = style_stack.last().copied() {
             let current_size = size_stack.last().map(|&(_, _, size)| size);
             let tokloc = if text_mode {
                 self.tokens.next_any_token()
@@ -75,6 +75,7 @@ impl<'arena> Parser<'_, 'arena> {
                         }
                         TextToken::Letter(ch) => Ok(ch.into()),
                         TextToken::Style(style) => {
+                            let in_group = str_builder.is_some();
                             if let Some(builder) = str_builder.take()
                                 && !builder.is_empty()
                             {
@@ -86,7 +87,12 @@ impl<'arena> Parser<'_, 'arena> {
                                     text,
                                 ));
                             }
-                            style_stack.push((brace_nesting, Some(style), current_voffset));
+                            style_stack.push((
+                                brace_nesting,
+                                Some(style),
+                                current_voffset,
+                                in_group,
+                            ));
                             brace_nesting = 0;
                             continue;
                         }
@@ -109,15 +115,11 @@ impl<'arena> Parser<'_, 'arena> {
                                 // The size command itself is the argument of the style command,
                                 // e.g. `\text\large x`, which is equivalent to `\text{}x`:
                                 // the text is empty and the size never takes effect.
-                                style_stack.pop();
-                                brace_nesting = previous_nesting;
-                                discard_dead_sizes(
+                                if close_scopes(
+                                    &mut style_stack,
                                     &mut size_stack,
-                                    style_stack.len(),
-                                    brace_nesting,
-                                );
-                                if !style_stack.is_empty() {
-                                    // If there are still styles to process, we must have been within a group.
+                                    &mut brace_nesting,
+                                ) {
                                     str_builder = Some(self.buffer.get_builder());
                                 }
                             }
@@ -171,11 +173,7 @@ impl<'arena> Parser<'_, 'arena> {
                                 current_voffset,
                                 output,
                             ));
-                            style_stack.pop();
-                            brace_nesting = previous_nesting;
-                            discard_dead_sizes(&mut size_stack, style_stack.len(), brace_nesting);
-                            if !style_stack.is_empty() {
-                                // If there are still styles to process, we must have been within a group.
+                            if close_scopes(&mut style_stack, &mut size_stack, &mut brace_nesting) {
                                 str_builder = Some(self.buffer.get_builder());
                             }
                             continue;
@@ -231,14 +229,11 @@ impl<'arena> Parser<'_, 'arena> {
                                         text,
                                     ));
                                 }
-                                style_stack.pop();
-                                brace_nesting = previous_nesting;
-                                discard_dead_sizes(
+                                if close_scopes(
+                                    &mut style_stack,
                                     &mut size_stack,
-                                    style_stack.len(),
-                                    brace_nesting,
-                                );
-                                if !style_stack.is_empty() {
+                                    &mut brace_nesting,
+                                ) {
                                     str_builder = Some(self.buffer.get_builder());
                                 }
                                 continue;
@@ -249,6 +244,7 @@ impl<'arena> Parser<'_, 'arena> {
                     }
                     Token::MathOrTextMode(_, ch) => Ok(ch.into()),
                     Token::Text(style) => {
+                        let in_group = str_builder.is_some();
                         if let Some(builder) = str_builder.take()
                             && !builder.is_empty()
                         {
@@ -268,11 +264,12 @@ impl<'arena> Parser<'_, 'arena> {
                             }
                             _ => style,
                         };
-                        style_stack.push((brace_nesting, new_style, current_voffset));
+                        style_stack.push((brace_nesting, new_style, current_voffset, in_group));
                         brace_nesting = 0;
                         continue;
                     }
                     Token::RaiseBox => {
+                        let in_group = str_builder.is_some();
                         if let Some(builder) = str_builder
                             && !builder.is_empty()
                         {
@@ -312,7 +309,7 @@ impl<'arena> Parser<'_, 'arena> {
                             None => new_voffset,
                         };
 
-                        style_stack.push((brace_nesting, current_style, Some(voffset)));
+                        style_stack.push((brace_nesting, current_style, Some(voffset), in_group));
                         brace_nesting = 0;
                         str_builder = None;
                         continue;
@@ -350,11 +347,7 @@ impl<'arena> Parser<'_, 'arena> {
                             current_voffset,
                             output,
                         ));
-                        style_stack.pop();
-                        brace_nesting = previous_nesting;
-                        discard_dead_sizes(&mut size_stack, style_stack.len(), brace_nesting);
-                        if !style_stack.is_empty() {
-                            // If there are still styles to process, we must have been within a group.
+                        if close_scopes(&mut style_stack, &mut size_stack, &mut brace_nesting) {
                             str_builder = Some(self.buffer.get_builder());
                         }
                         continue;
@@ -373,15 +366,11 @@ impl<'arena> Parser<'_, 'arena> {
                             if str_builder.is_none() {
                                 // This space was the only thing after the style change.
                                 // So we need to pop the style stack and restore the previous nesting.
-                                style_stack.pop();
-                                brace_nesting = previous_nesting;
-                                discard_dead_sizes(
+                                if close_scopes(
+                                    &mut style_stack,
                                     &mut size_stack,
-                                    style_stack.len(),
-                                    brace_nesting,
-                                );
-                                if !style_stack.is_empty() {
-                                    // If there are still styles to process, we must have been within a group.
+                                    &mut brace_nesting,
+                                ) {
                                     str_builder = Some(self.buffer.get_builder());
                                 }
                             }
@@ -410,11 +399,7 @@ impl<'arena> Parser<'_, 'arena> {
                     current_voffset,
                     text,
                 ));
-                style_stack.pop();
-                brace_nesting = previous_nesting;
-                discard_dead_sizes(&mut size_stack, style_stack.len(), brace_nesting);
-                if !style_stack.is_empty() {
-                    // If there are still styles to process, we must have been within a group.
+                if close_scopes(&mut style_stack, &mut size_stack, &mut brace_nesting) {
                     str_builder = Some(self.buffer.get_builder());
                 }
             }
@@ -423,6 +408,25 @@ impl<'arena> Parser<'_, 'arena> {
     }
 }
 
+/// Close the scope of a command whose argument is complete, together with the scopes of all the
+/// commands of which it was the argument itself, as in `\text\textbf{a}`.
+///
+/// Returns whether there is still a group open.
+fn close_scopes(
+    style_stack: &mut Vec<(usize, Option<HtmlTextStyle>, Option<LengthSet>, bool)>,
+    size_stack: &mut Vec<(usize, usize, HtmlTextSize)>,
+    brace_nesting: &mut usize,
+) -> bool {
+    while let Some((previous_nesting, _, _, in_group)) = style_stack.pop() {
+        *brace_nesting = previous_nesting;
+        discard_dead_sizes(size_stack, style_stack.len(), *brace_nesting);
+        if in_group {
+            return true;
+        }
+    }
+    false
+}
+
 /// Remove all size declarations that have gone out of scope, i.e. those declared in a style
 /// scope or brace group that has been closed.
 fn discard_dead_sizes(
-- 
2.43.0


From bcf0f3edbbd5091583e47e0941e45904d32445c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 27/46] fix: scripts behind an operator which is an argument
 are not part of the argument

x^\sum_c was x^{\sum_c} instead of x^{\sum}_c, and \frac a\lim_b was
\frac{a}{\lim_b}.
---
 crates/math-core/src/parser.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 83e5aa2..2fc814b 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -139,6 +139,12 @@ impl ParseAs {
             ParseAs::Sequence | ParseAs::ContinueSequence | ParseAs::ContinueArg
         )
     }
+
+    /// Whether the scripts which follow an operator belong to the operator itself.
+    #[inline]
+    fn takes_bounds(self) -> bool {
+        matches!(self, ParseAs::Sequence)
+    }
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
@@ -676,7 +682,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             Token::ForceLargeOp(op) => {
                 class = Class::Operator;
 
-                let bounds_with_limits = self.get_bounds(None)?;
+                let bounds_with_limits = self.get_op_bounds(parse_as)?;
                 let bounds = bounds_with_limits.bounds;
                 let (left, right) = self.mathop_spacing(parse_as, prev_class, true)?;
                 let (use_underover, attrs) = match bounds_with_limits.limits() {
@@ -1144,8 +1150,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 } else {
                     Node::UnderAccent(x.as_op(), OpAttrs::empty(), target)
                 };
-                if (is_over && matches!(self.tokens.peek().token(), Token::Circumflex))
-                    || (!is_over && matches!(self.tokens.peek().token(), Token::Underscore))
+                if parse_as.takes_bounds()
+                    && ((is_over && matches!(self.tokens.peek().token(), Token::Circumflex))
+                        || (!is_over && matches!(self.tokens.peek().token(), Token::Underscore)))
                 {
                     let target = self.commit(base);
                     self.next_token()?; // Discard the circumflex or underscore token.
@@ -1171,7 +1178,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let has_bounds = !matches!(op.category(), OpCategory::C);
 
                 let bounds_limits = if has_bounds {
-                    self.get_bounds(None)?
+                    self.get_op_bounds(parse_as)?
                 } else {
                     BoundsWithLimits::default()
                 };
@@ -1214,7 +1221,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             ref tok @ (Token::PseudoOperator(name) | Token::PseudoOperatorLimits(name)) => {
                 class = Class::Operator;
-                let bounds_limits = self.get_bounds(None)?;
+                let bounds_limits = self.get_op_bounds(parse_as)?;
                 let bounds = bounds_limits.bounds;
 
                 let limits_by_default = matches!(tok, Token::PseudoOperatorLimits(_));
@@ -1687,7 +1694,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     builder.push_str(text);
                 }
                 let letters = builder.finish(self.arena);
-                let bounds_limits = self.get_bounds(None)?;
+                let bounds_limits = self.get_op_bounds(parse_as)?;
                 let bounds = bounds_limits.bounds;
 
                 let (use_underover, attrs) = match (bounds_limits.limits(), with_limits) {
@@ -2267,7 +2274,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 };
 
                 // add trailing bounds to sidesettend node
-                let trailing_bounds = self.get_bounds(None)?;
+                let trailing_bounds = self.get_op_bounds(parse_as)?;
                 if !trailing_bounds.bounds.is_trivial() {
                     let trailing_limits = trailing_bounds.limits();
                     let use_underover = matches!(trailing_limits, Some(LimitsKind::Always))
@@ -2953,6 +2960,16 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         }
     }
 
+    /// Get the bounds of an operator. If the operator is an argument, what follows it is not
+    /// part of the argument.
+    fn get_op_bounds(&mut self, parse_as: ParseAs) -> ParseResult<BoundsWithLimits<'arena>> {
+        if parse_as.takes_bounds() {
+            self.get_bounds(None)
+        } else {
+            Ok(BoundsWithLimits::default())
+        }
+    }
+
     /// Helper for parsing `\sideset`.
     /// Get bounds that are an argument to a macro
     /// (either wrapped in braces, or a single bare `'`).
-- 
2.43.0


From 3e30fe7a78cdcf69baa6e088b68c76ec88f3dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 28/46] fix: place the limits of \det below in display style,
 like TeX

---
 crates/math-core/src/commands.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/commands.rs b/crates/math-core/src/commands.rs
index b8bd6fd..835c63e 100644
--- a/crates/math-core/src/commands.rs
+++ b/crates/math-core/src/commands.rs
@@ -22,8 +22,8 @@ use crate::{
 // These function names are essentially just passed-through, wrapped in a token.
 static FUNCTIONS: phf::Set<&'static str> = phf::phf_set!(
     "arccos", "arcctg", "arcsin", "arctan", "arctg", "arg", "ch", "cos", "cosec", "cosh", "cot",
-    "cotg", "coth", "csc", "ctg", "cth", "deg", "det", "dim", "erf", "erfc", "exp", "hom", "ker",
-    "lg", "ln", "log", "sec", "sh", "sin", "sinh", "tan", "tanh", "tg", "th"
+    "cotg", "coth", "csc", "ctg", "cth", "deg", "dim", "erf", "erfc", "exp", "hom", "ker", "lg",
+    "ln", "log", "sec", "sh", "sin", "sinh", "tan", "tanh", "tg", "th"
 );
 
 static COMMANDS: phf::Map<&'static str, Token> = phf::phf_map! {
@@ -311,6 +311,7 @@ static COMMANDS: phf::Map<&'static str, Token> = phf::phf_map! {
     "def" => Def(false),
     "degree" => Letter(SuperChar::from_char(symbol::DEGREE_SIGN), Mode::MathOrText),
     "delta" => Letter(SuperChar::from_char(symbol::GREEK_SMALL_LETTER_DELTA), Mode::Math),
+    "det" => PseudoOperatorLimits("det"),
     "dfrac" => Frac(Some(FracAttr::DisplayStyleTrue)),
     "diagdown" => ForceOrd(symbol::MATHEMATICAL_FALLING_DIAGONAL.as_op()),
     "diagup" => ForceOrd(symbol::MATHEMATICAL_RISING_DIAGONAL.as_op()),
-- 
2.43.0


From a23510adbcbf03025b909e12985f12de51e6baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 29/46] fix: set the labels of \overset and arrows in the style
 of scripts of the surrounding style

---
 crates/math-core/src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 2fc814b..d0e3dc9 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1123,7 +1123,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 }
             }
             Token::Overset | Token::Underset => {
-                let old_style = mem::replace(&mut self.state.style, Style::Script);
+                let old_style = self.state.style;
+                self.state.style = old_style.scriptify();
                 let symbol = self.parse_next(ParseAs::Arg)?;
                 self.state.style = old_style;
                 let token = self.next_token();
@@ -2344,7 +2345,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 class = Class::Relation;
 
                 // The arguments are set in the style of scripts.
-                let old_style = mem::replace(&mut self.state.style, Style::Script);
+                let old_style = self.state.style;
+                self.state.style = old_style.scriptify();
 
                 // Optional under-argument in square brackets (e.g. `\xrightarrow[a]{b}`),
                 // handled in the same style as `\sqrt`'s optional degree argument.
-- 
2.43.0


From bfee63caad4786f566487dab17842fa4ae731b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 30/46] fix: track the style in root degrees, prescripts, brace
 labels, \cramped and \genfrac

---
 crates/math-core/src/parser.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index d0e3dc9..946d8b2 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -995,7 +995,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 if let Ok(tokloc) = &next
                     && matches!(tokloc.token(), Token::SquareBracketOpen)
                 {
+                    let old_style = mem::replace(&mut self.state.style, Style::ScriptScript);
                     let degree = self.parse_group(EndToken::SquareBracketClose)?;
+                    self.state.style = old_style;
                     let content = self.parse_next(ParseAs::Arg)?;
                     Ok(Node::Root(
                         node_vec_to_node(self.arena, &degree, true),
@@ -1096,8 +1098,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 } else {
                     None
                 };
+                let old_style = self.state.style;
+                if style.is_none() {
+                    self.state.style = old_style.shrink();
+                }
                 let num = self.parse_next(ParseAs::Arg)?;
                 let denom = self.parse_next(ParseAs::Arg)?;
+                self.state.style = old_style;
                 let attr = None;
                 let (lt_value, lt_unit) = lt.into_parts();
                 Ok(fenced(
@@ -1157,7 +1164,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 {
                     let target = self.commit(base);
                     self.next_token()?; // Discard the circumflex or underscore token.
+                    let old_style = self.state.style;
+                    self.state.style = old_style.scriptify();
                     let expl = self.parse_next(ParseAs::Arg)?;
+                    self.state.style = old_style;
                     if is_over {
                         Ok(Node::Over {
                             symbol: expl,
@@ -1962,7 +1972,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         }
                     };
 
+                    let inner_style = style.unwrap_or(self.state.style);
+                    let old_style = mem::replace(&mut self.state.style, inner_style);
                     let inner = self.parse_next(ParseAs::Arg)?;
+                    self.state.style = old_style;
                     (style, inner)
                 } else {
                     let inner = self.parse_token(next, ParseAs::Arg, prev_class)?.1;
@@ -2194,8 +2207,11 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 return Ok(Parsed::Expansion);
             }
             Token::Prescript => {
+                let old_style = self.state.style;
+                self.state.style = old_style.scriptify();
                 let sup = self.parse_next(ParseAs::Arg)?;
                 let sub = self.parse_next(ParseAs::Arg)?;
+                self.state.style = old_style;
                 let base = self.parse_next(ParseAs::Arg)?;
                 let pre = self
                     .arena
-- 
2.43.0


From a0dce90abf6c19a0bf320236354a39906daf49c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 31/46] fix: reset the script level in \dfrac, \tfrac, \dbinom
 and \tbinom

---
 crates/math-core/src/parser.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 946d8b2..89e9c0a 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1019,9 +1019,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let num = self.parse_next(ParseAs::Arg)?;
                 let denom = self.parse_next(ParseAs::Arg)?;
                 self.state.style = old_style;
-                if matches!(cur_token, Token::Binom(_)) {
+                let node = if matches!(cur_token, Token::Binom(_)) {
                     let (lt_value, lt_unit) = Length::zero().into_parts();
-                    Ok(fenced(
+                    fenced(
                         self.arena,
                         vec![self.commit(Node::Frac {
                             num,
@@ -1033,16 +1033,33 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         Some(OPEN_PAREN),
                         Some(CLOSE_PAREN),
                         None,
-                    ))
+                    )
                 } else {
                     let (lt_value, lt_unit) = Length::none().into_parts();
-                    Ok(Node::Frac {
+                    Node::Frac {
                         num,
                         denom,
                         lt_value,
                         lt_unit,
                         attr,
-                    })
+                    }
+                };
+                match attr {
+                    // An explicit style is also an explicit size.
+                    Some(attr) if matches!(old_style, Style::Script | Style::ScriptScript) => {
+                        let style = match attr {
+                            FracAttr::DisplayStyleFalse => Style::Text,
+                            FracAttr::CFracStyle | FracAttr::DisplayStyleTrue => Style::Display,
+                        };
+                        Ok(Node::Row {
+                            nodes: self.arena.push_slice(&[self.commit(node)]),
+                            attrs: RowAttrs {
+                                style: Some(style),
+                                ..RowAttrs::DEFAULT
+                            },
+                        })
+                    }
+                    _ => Ok(node),
                 }
             }
             Token::Genfrac => 'genfrac: {
-- 
2.43.0


From b34ad3f20876725e8201d5f2d2b38a8e536a475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 32/46] fix: end a style or colour switch at the end of the
 optional argument

---
 crates/math-core/src/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 89e9c0a..c5e6d99 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -63,6 +63,8 @@ struct ParserState<'arena> {
     /// `true` if we are directly in a cell of the environment, i.e., not in a group or in some
     /// other construct nested within the cell. Only there can `&` and `\\` separate cells.
     in_cell: bool,
+    /// `true` if we are directly in an optional argument, which is ended by a `]`.
+    in_optional_arg: bool,
     env: EnvState<'arena>,
     /// The current style (display/text/script/scriptscript) for the surrounding group.
     style: Style,
@@ -191,6 +193,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 transform: None,
                 right_boundary_hack: false,
                 in_cell: false,
+                in_optional_arg: false,
                 env: EnvState::default(),
                 style,
                 vertical_line_def: None,
@@ -258,12 +261,20 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let old_style = self.state.style;
         // A sequence which is ended by any end token is still part of the same group.
         let old_in_cell = self.state.in_cell;
+        let old_in_optional_arg = self.state.in_optional_arg;
         if let SequenceEnd::EndToken(end_token) = sequence_end {
             self.state.in_cell = matches!(end_token, EndToken::End);
+            self.state.in_optional_arg = matches!(end_token, EndToken::SquareBracketClose);
         }
 
         // Because we don't want to consume the end token, we just peek here.
         while !sequence_end.matches(self.tokens.peek().token()) {
+            if matches!(sequence_end, SequenceEnd::AnyEndToken)
+                && self.state.in_optional_arg
+                && matches!(self.tokens.peek().token(), Token::SquareBracketClose)
+            {
+                break;
+            }
             if self.at_cell_separator() {
                 // The separator ends a sequence which is ended by any end token, ...
                 if matches!(sequence_end, SequenceEnd::AnyEndToken) {
@@ -348,6 +359,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         self.state.transform = old_tf;
         self.state.style = old_style;
         self.state.in_cell = old_in_cell;
+        self.state.in_optional_arg = old_in_optional_arg;
         Ok(nodes)
     }
 
-- 
2.43.0


From 8aacea40e6f7edcc6da0750f6be2a7a40ecc58d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 33/46] fix: the numerator of an infix fraction extends to the
 start of the group

---
 crates/math-core/src/parser.rs | 68 ++++++++++++++++++++++++++++++----
 1 file changed, 60 insertions(+), 8 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index c5e6d99..ca9dfdb 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -65,6 +65,8 @@ struct ParserState<'arena> {
     in_cell: bool,
     /// `true` if we are directly in an optional argument, which is ended by a `]`.
     in_optional_arg: bool,
+    /// The color which is in effect at an infix command which has ended the scope of `\color`.
+    infix_color: Option<(u8, u8, u8)>,
     env: EnvState<'arena>,
     /// The current style (display/text/script/scriptscript) for the surrounding group.
     style: Style,
@@ -95,6 +97,14 @@ const MAX_NESTING_DEPTH: u32 = 256;
 /// The initial value of [`ParserState::expansion_tokens_left`].
 const MAX_EXPANSION_TOKENS: usize = 1 << 20;
 
+/// The first half of a fraction which is written with an infix command.
+struct InfixFrac<'arena> {
+    numerator: Vec<&'arena Node<'arena>>,
+    with_line: bool,
+    delim: Option<InfixDelim>,
+    color: Option<(u8, u8, u8)>,
+}
+
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 enum SequenceEnd {
     EndToken(EndToken),
@@ -108,7 +118,13 @@ impl SequenceEnd {
             SequenceEnd::EndToken(token) => token.matches(other),
             SequenceEnd::AnyEndToken => matches!(
                 other,
-                Token::Eoi | Token::GroupEnd | Token::End(_) | Token::Right
+                // The numerator of an infix fraction extends to the start of the group, so the
+                // infix command has to be handled by the sequence which is the group.
+                Token::Eoi
+                    | Token::GroupEnd
+                    | Token::End(_)
+                    | Token::Right
+                    | Token::InfixGenFrac { .. }
             ),
         }
     }
@@ -194,6 +210,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 right_boundary_hack: false,
                 in_cell: false,
                 in_optional_arg: false,
+                infix_color: None,
                 env: EnvState::default(),
                 style,
                 vertical_line_def: None,
@@ -252,7 +269,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         keep_end_token: bool,
     ) -> ParseResult<Vec<&'arena Node<'arena>>> {
         let mut nodes = Vec::new();
-        let mut infix_frac: Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)> = None;
+        let mut infix_frac: Option<InfixFrac<'arena>> = None;
         // The index of the first node of the current cell (if this is the body of a table).
         let mut cell_start = 0usize;
 
@@ -374,10 +391,37 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         &self,
         nodes: &mut Vec<&'arena Node<'arena>>,
         cell_start: usize,
-        infix_frac: Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)>,
+        infix_frac: Option<InfixFrac<'arena>>,
     ) {
-        if let Some((numerator, with_line, delim)) = infix_frac {
-            let denominator = nodes.split_off(cell_start);
+        if let Some(InfixFrac {
+            numerator,
+            with_line,
+            delim,
+            color,
+        }) = infix_frac
+        {
+            let colored = |nodes: &[&'arena Node<'arena>]| {
+                self.commit(Node::Row {
+                    nodes: self.arena.push_slice(nodes),
+                    attrs: RowAttrs {
+                        color,
+                        ..RowAttrs::DEFAULT
+                    },
+                })
+            };
+            let mut denominator = nodes.split_off(cell_start);
+            // If the whole numerator is colored, then so is the whole fraction.
+            let color_all = color.is_some()
+                && matches!(
+                    numerator[..],
+                    [Node::Row {
+                        attrs: RowAttrs { color: Some(_), .. },
+                        ..
+                    }]
+                );
+            if color.is_some() && !color_all {
+                denominator = vec![colored(&denominator)];
+            }
             let (lt_value, lt_unit) = if with_line {
                 Length::none().into_parts()
             } else {
@@ -406,7 +450,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             } else {
                 frac
             };
-            nodes.push(node);
+            nodes.push(if color_all { colored(&[node]) } else { node });
         }
     }
 
@@ -417,7 +461,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         sequence_end: SequenceEnd,
         collected_nodes: &mut Vec<&'arena Node<'arena>>,
         cell_start: usize,
-        infix_frac: &mut Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)>,
+        infix_frac: &mut Option<InfixFrac<'arena>>,
     ) -> ParseResult<ControlFlow> {
         let span = tokspan.span().into();
         let result: Result<(), LatexError> = match *tokspan.token() {
@@ -431,7 +475,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::InfixGenFrac { with_line, delim } => {
                 if infix_frac.is_none() {
-                    *infix_frac = Some((collected_nodes.split_off(cell_start), with_line, delim));
+                    *infix_frac = Some(InfixFrac {
+                        numerator: collected_nodes.split_off(cell_start),
+                        with_line,
+                        delim,
+                        color: self.state.infix_color.take(),
+                    });
                     // The numerator was already parsed in the surrounding style (we only
                     // learn it's a fraction here), but we can at least shrink the style
                     // for the denominator. `parse_sequence` restores the style on exit.
@@ -2153,6 +2202,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     prev_class,
                     true,
                 )?;
+                if matches!(self.tokens.peek().token(), Token::InfixGenFrac { .. }) {
+                    self.state.infix_color.get_or_insert(color);
+                }
                 Ok(Node::Row {
                     nodes: self.arena.push_slice(&content),
                     attrs: RowAttrs {
-- 
2.43.0


From cc07a0323574cab8ef48f8906e35d7c6dae5e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 34/46] fix: a font switch inside a style or colour switch is
 still in effect behind an infix command

---
 crates/math-core/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index ca9dfdb..34037bc 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -373,7 +373,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             // Discard the end token.
             self.next_token()?;
         }
-        self.state.transform = old_tf;
+        // A font switch is still in effect behind an infix command.
+        if !matches!(sequence_end, SequenceEnd::AnyEndToken)
+            || !matches!(self.tokens.peek().token(), Token::InfixGenFrac { .. })
+        {
+            self.state.transform = old_tf;
+        }
         self.state.style = old_style;
         self.state.in_cell = old_in_cell;
         self.state.in_optional_arg = old_in_optional_arg;
-- 
2.43.0


From f7ef33404516be914e9b731f4246fdc1bd739038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 35/46] fix: \Set within \Set ended the special meaning of the
 bar in the outer one

---
 crates/math-core/src/parser.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 34037bc..3f7bee0 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -71,7 +71,8 @@ struct ParserState<'arena> {
     /// The current style (display/text/script/scriptscript) for the surrounding group.
     style: Style,
     /// The current meaning of the character `|`, which `\set`, `\Set` and `\Braket` change.
-    vertical_line_def: Option<VerticalLineDef>,
+    /// The last entry is in effect; the ones before belong to the surrounding commands.
+    vertical_line_defs: Vec<VerticalLineDef>,
     /// How many more custom commands may be expanded before we give up.
     ///
     /// Names are resolved when a command is expanded, so a definition may refer to itself,
@@ -213,7 +214,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 infix_color: None,
                 env: EnvState::default(),
                 style,
-                vertical_line_def: None,
+                vertical_line_defs: Vec::new(),
                 expansions_left: parser_cfg.max_expansions.0,
                 expansion_tokens_left: MAX_EXPANSION_TOKENS,
                 nesting_depth: 0,
@@ -519,7 +520,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 Ok(())
             }
             Token::VerticalLineDef(def) => {
-                self.state.vertical_line_def = def;
+                match def {
+                    Some(def) => self.state.vertical_line_defs.push(def),
+                    None => {
+                        self.state.vertical_line_defs.pop();
+                    }
+                }
                 Ok(())
             }
             Token::NoNumber => {
@@ -790,7 +796,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::Ord(ord) => 'ord: {
                 if matches!(ord, symbol::VERTICAL_LINE)
-                    && let Some(vld) = self.state.vertical_line_def
+                    && let Some(&vld) = self.state.vertical_line_defs.last()
                 {
                     let mut attrs = OpAttrs::FORM_INFIX;
                     // For vertical line, `form="infix"` implies relation spacing, so we can set
@@ -3499,7 +3505,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             return Ok(Class::Default);
         }
         let (token_idx, class) = self.tokens.peek_class_token()?;
-        if let Some(vld) = self.state.vertical_line_def
+        if let Some(&vld) = self.state.vertical_line_defs.last()
             && matches!(
                 self.tokens
                     .get_token_by_index(token_idx)
-- 
2.43.0


From 9e9a55ea871529f87835cd5b9a81112d395a4bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 36/46] fix: no space between a binary operator and a following
 \log or \sum in scripts

A binary operator without space in a script is still a binary operator, whereas
\mathbin without an operand on its left is an ordinary symbol.
---
 crates/math-core/src/parser.rs | 42 ++++++++++++++--------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 3f7bee0..1040df4 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -861,19 +861,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 })
             }
             Token::BinaryOp(binary_op) => {
-                let spacing = self.state.bin_op_spacing(
+                let spacing;
+                (class, spacing) = self.state.bin_op_spacing(
                     parse_as.in_sequence(),
                     prev_class,
                     next_class,
                     false,
                 );
-                class = if matches!(spacing, Some(MathSpacing::Zero)) {
-                    // If the spacing is zero, this operator behaves like an ordinary symbol in
-                    // terms of spacing.
-                    Class::Default
-                } else {
-                    Class::BinaryOp
-                };
                 Ok(Node::Operator {
                     op: binary_op.as_op(),
                     attrs: OpAttrs::empty(),
@@ -883,16 +877,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 })
             }
             Token::ForceBinaryOp(op) => {
-                let spacing =
+                let spacing;
+                (class, spacing) =
                     self.state
                         .bin_op_spacing(parse_as.in_sequence(), prev_class, next_class, true);
-                class = if matches!(spacing, Some(MathSpacing::Zero)) {
-                    // If the spacing is zero, this operator behaves like an ordinary symbol in
-                    // terms of spacing.
-                    Class::Default
-                } else {
-                    Class::BinaryOp
-                };
                 Ok(Node::Operator {
                     op,
                     attrs: OpAttrs::empty(),
@@ -916,8 +904,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         self.mathop_spacing(parse_as, prev_class, true)?
                     }
                     MathClassKind::Bin => {
-                        class = Class::BinaryOp;
-                        let spacing = self.state.bin_op_spacing(
+                        let spacing;
+                        (class, spacing) = self.state.bin_op_spacing(
                             parse_as.in_sequence(),
                             prev_class,
                             next_class,
@@ -3563,29 +3551,33 @@ impl ParserState<'_> {
         )
     }
 
+    /// The class and the spacing of a binary operator.
+    ///
+    /// Without an operand on both sides, it behaves like an ordinary symbol.
     fn bin_op_spacing(
         &self,
         in_sequence: bool,
         prev_class: Class,
         next_class: Class,
         force: bool,
-    ) -> Option<MathSpacing> {
+    ) -> (Class, Option<MathSpacing>) {
         if !in_sequence {
             // Don't add spacing if we are in an argument.
-            None
+            (Class::BinaryOp, None)
         } else if matches!(
             prev_class,
             Class::Relation | Class::Punctuation | Class::BinaryOp | Class::Operator | Class::Open
         ) || matches!(
             next_class,
             Class::Relation | Class::Punctuation | Class::Close | Class::End
-        ) || matches!(self.style, Style::Script | Style::ScriptScript)
-        {
-            Some(MathSpacing::Zero)
+        ) {
+            (Class::Default, Some(MathSpacing::Zero))
+        } else if matches!(self.style, Style::Script | Style::ScriptScript) {
+            (Class::BinaryOp, Some(MathSpacing::Zero))
         } else if force {
-            Some(MathSpacing::FourMu) // force binary op spacing
+            (Class::BinaryOp, Some(MathSpacing::FourMu)) // force binary op spacing
         } else {
-            None
+            (Class::BinaryOp, None)
         }
     }
 
-- 
2.43.0


From 1bdd39ad70c8229f48f9fafc578671cb78cf277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 37/46] fix: no space around an operator which is alone under a
 square root

The content of <msqrt> is laid out like a row, so the spacing of the operator matters.
---
 crates/math-core/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 1040df4..73dbcd8 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1065,7 +1065,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     ))
                 } else {
                     Ok(Node::Sqrt(
-                        self.parse_token(next, ParseAs::Arg, Class::Default)?.1,
+                        self.parse_token(next, ParseAs::ArgWithSpace, Class::Default)?
+                            .1,
                     ))
                 }
             }
-- 
2.43.0


From 28263915466ca220d2ea0641b631441e1a746d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 38/46] fix: a symbol in braces below or above another one
 keeps its class for the next atom

For example, the minus sign in \overset{!}{=} -b is not a binary operator.
---
 crates/math-core/src/parser.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 73dbcd8..e8cf8ef 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -269,6 +269,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         prev_class: Class,
         keep_end_token: bool,
     ) -> ParseResult<Vec<&'arena Node<'arena>>> {
+        self.parse_sequence_with_class(sequence_end, prev_class, keep_end_token)
+            .map(|(nodes, _)| nodes)
+    }
+
+    /// Like [`Self::parse_sequence`], but also returns the class of the last node.
+    fn parse_sequence_with_class(
+        &mut self,
+        sequence_end: SequenceEnd,
+        prev_class: Class,
+        keep_end_token: bool,
+    ) -> ParseResult<(Vec<&'arena Node<'arena>>, Class)> {
         let mut nodes = Vec::new();
         let mut infix_frac: Option<InfixFrac<'arena>> = None;
         // The index of the first node of the current cell (if this is the body of a table).
@@ -369,6 +380,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             // If there are superscripts or subscripts, we need to wrap the node we just got into
             // one of the node types for superscripts and subscripts.
         }
+        if infix_frac.is_some() {
+            // A fraction is what the sequence ends with.
+            prev_class = Class::Default;
+        }
         self.finish_infix_frac(&mut nodes, cell_start, infix_frac);
         if !keep_end_token {
             // Discard the end token.
@@ -383,7 +398,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         self.state.style = old_style;
         self.state.in_cell = old_in_cell;
         self.state.in_optional_arg = old_in_optional_arg;
-        Ok(nodes)
+        Ok((nodes, prev_class))
     }
 
     /// Whether the next token is a `&` or `\\` which separates cells of the current environment.
@@ -1490,16 +1505,21 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             Token::GroupBegin => {
                 let content =
                     if matches!(parse_as, ParseAs::ContinueSequence | ParseAs::ContinueArg) {
-                        self.parse_sequence(
+                        let (content, last_class) = self.parse_sequence_with_class(
                             SequenceEnd::EndToken(EndToken::GroupClose),
                             prev_class,
                             false,
-                        )?
+                        )?;
+                        // A single symbol keeps its class in the braces.
+                        if content.len() == 1 {
+                            class = last_class;
+                        }
+                        content
                     } else {
                         self.parse_group(EndToken::GroupClose)?
                     };
                 return Ok(Parsed::Node(
-                    Class::Default,
+                    class,
                     node_vec_to_node(self.arena, &content, matches!(parse_as, ParseAs::Arg)),
                 ));
             }
-- 
2.43.0


From cca2c394288adcf1e549f14ee086c7ff3cd43314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 39/46] fix: -r reports a path that doesn't exist

---
 crates/math-core-cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/math-core-cli/src/main.rs b/crates/math-core-cli/src/main.rs
index f395e36..1db520d 100644
--- a/crates/math-core-cli/src/main.rs
+++ b/crates/math-core-cli/src/main.rs
@@ -182,6 +182,10 @@ fn main() {
                 Err(e) => exit_conversion_error(e, None),
             }
         } else if args.recursive {
+            // A path that doesn't exist is an error, not an empty directory.
+            if let Err(e) = fs::metadata(fpath) {
+                exit_io_error(&e);
+            }
             convert_html_recursive(&args, fpath, &mut replacer, &mut converter);
         } else {
             convert_html(&args, fpath, args.write, &mut replacer, &mut converter);
-- 
2.43.0


From c4259162e7563552a6a4529c1c542cc0a7ab1dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 40/46] fix: an ampersand in front of an entity no longer hides
 it

---
 crates/math-core-cli/src/html_entities.rs | 33 ++++++++++++-----------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/crates/math-core-cli/src/html_entities.rs b/crates/math-core-cli/src/html_entities.rs
index 6768076..8bdb130 100644
--- a/crates/math-core-cli/src/html_entities.rs
+++ b/crates/math-core-cli/src/html_entities.rs
@@ -43,26 +43,27 @@ where
         buffer.push_str(&input[last_end..next_start]);
 
         let entity_start = next_start + 1;
-        let Some(index) = bytes[entity_start..].iter().position(|&b| b == b';') else {
-            // No `;` character found, exit the loop.
-            last_end = next_start;
-            break;
-        };
-        let end = entity_start + index;
+        // The name of an entity ends at the first byte which cannot be part of it.
+        let name_len = bytes[entity_start..]
+            .iter()
+            .take_while(|b| b.is_ascii_alphanumeric() || **b == b'#')
+            .count();
+        let end = entity_start + name_len;
+        let next = bytes.get(end).copied();
 
-        // We use `next_start + 1` to skip the `&` character.
-        if let Some(replacement) = HTML_RESERVED_MAP.get(&bytes[entity_start..end]) {
-            unsafe {
-                buffer.push_str(std::str::from_utf8_unchecked(&[*replacement]));
-            }
+        if next == Some(b';')
+            && let Some(replacement) = HTML_RESERVED_MAP.get(&bytes[entity_start..end])
+        {
+            buffer.push(char::from(*replacement));
+            // We use `end + 1` to include the `;` character.
+            last_end = end + 1;
         } else {
-            // No match, copy the original string.
-            buffer.push_str(&input[next_start..=end]);
+            // No match, copy the `&` and whatever could have been the name. The second of two
+            // successive `&` doesn't start an entity either.
+            last_end = end + usize::from(name_len == 0 && next == Some(b'&'));
+            buffer.push_str(&input[next_start..last_end]);
         }
 
-        // We use `end + 1` to include the `;` character.
-        last_end = end + 1;
-
         // Check for the next ampersand
         match memchr(b'&', &bytes[last_end..]) {
             Some(idx) => next_start = last_end + idx,
-- 
2.43.0


From 58359f4872a4ef8c58135f3a3453acd1aa92bd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 41/46] fix: keep the blank after a control symbol like \% in
 text

---
 crates/math-core/src/lexer.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/lexer.rs b/crates/math-core/src/lexer.rs
index 3ad3420..36082cf 100644
--- a/crates/math-core/src/lexer.rs
+++ b/crates/math-core/src/lexer.rs
@@ -241,8 +241,16 @@ impl<'source> Lexer<'source> {
             '\\' => {
                 let (cmd_string, end) = self.read_command();
                 let span = Span::new(loc, end);
-                // After a command, all whitespace is skipped, even in text mode.
-                self.skip_whitespace();
+                // After a control word, all whitespace is skipped, even in text mode. The same goes
+                // for the spacing commands, but after any other control symbol, like `\%`, the
+                // whitespace is kept.
+                if cmd_string.starts_with(|c: char| {
+                    c.is_ascii_alphabetic()
+                        || c.is_ascii_whitespace()
+                        || matches!(c, '!' | ',' | ':' | ';' | '>')
+                }) {
+                    self.skip_whitespace();
+                }
                 return self.parse_env_marker(span, cmd_string);
             }
             c if c.is_ascii_digit() => Token::Digit(c),
-- 
2.43.0


From bafd4020a394ae65504b5080ccb54f27b0342fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 42/46] fix: put text accents on the right letter and never
 drop them

---
 crates/math-core/src/text_parser.rs | 33 ++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/crates/math-core/src/text_parser.rs b/crates/math-core/src/text_parser.rs
index 4f504e8..210bd7c 100644
--- a/crates/math-core/src/text_parser.rs
+++ b/crates/math-core/src/text_parser.rs
@@ -38,7 +38,8 @@ impl<'arena> Parser<'_, 'arena> {
         let mut style_stack = vec![(0usize, initial_style, initial_voffset, false)];
         let mut str_builder: Option<StringBuilder> = None;
         let mut snippets: Vec<TextSnippet<'arena>> = Vec::new();
-        let mut accent_to_insert: Option<char> = None;
+        // Accents which are still waiting for their letter; there can be several, as in `\'{\^e}`.
+        let mut pending_accents: Vec<char> = Vec::new();
         let mut brace_nesting = 0usize;
         // Size declarations like `\large`. Each entry records the `style_stack` depth and the
         // brace nesting level at which the size was declared, because the size stays in effect
@@ -67,7 +68,7 @@ impl<'arena> Parser<'_, 'arena> {
                     match text_token {
                         TextToken::Accent(accent) => {
                             if str_builder.is_some() {
-                                accent_to_insert = Some(accent);
+                                pending_accents.push(accent);
                                 continue;
                             } else {
                                 Err(LatexErrKind::ExpectedArgumentGotEOI)
@@ -159,6 +160,8 @@ impl<'arena> Parser<'_, 'arena> {
                     Token::Digit(digit) => Ok(digit.into()),
                     // Blanks in front of an argument are not part of it.
                     Token::Whitespace if str_builder.is_none() => continue,
+                    // The same goes for blanks between an accent and its letter.
+                    Token::Whitespace if !pending_accents.is_empty() => continue,
                     Token::Whitespace | Token::NonBreakingSpace => {
                         Ok(SuperChar::from_char(symbol::NO_BREAK_SPACE))
                     }
@@ -188,7 +191,12 @@ impl<'arena> Parser<'_, 'arena> {
                         continue;
                     }
                     Token::GroupEnd => {
-                        if let Some(builder) = str_builder.take() {
+                        if let Some(mut builder) = str_builder.take() {
+                            if !pending_accents.is_empty() {
+                                // There is no letter for the accent, as in `\'{}`.
+                                builder.push_char(symbol::NO_BREAK_SPACE);
+                                push_accents(&mut builder, &mut pending_accents);
+                            }
                             if let Some(new_nesting) = brace_nesting.checked_sub(1) {
                                 brace_nesting = new_nesting;
                                 let group_had_sizes = matches!(
@@ -387,12 +395,13 @@ impl<'arena> Parser<'_, 'arena> {
             let c = c.map_err(|err| Box::new(LatexError(span.into(), err)))?;
             if let Some(builder) = &mut str_builder {
                 builder.push_superchar(c);
-                if let Some(accent) = accent_to_insert.take() {
-                    builder.push_char(accent);
-                }
+                push_accents(builder, &mut pending_accents);
             } else {
-                let mut b = [0u8; SuperChar::MAX_LEN_UTF8];
-                let text = self.arena.alloc_str(c.encode_utf8(&mut b));
+                str_builder = None;
+                let mut builder = self.buffer.get_builder();
+                builder.push_superchar(c);
+                push_accents(&mut builder, &mut pending_accents);
+                let text = builder.finish(self.arena);
                 snippets.push(TextSnippet(
                     current_style,
                     current_size,
@@ -408,6 +417,14 @@ impl<'arena> Parser<'_, 'arena> {
     }
 }
 
+/// Put the pending accents on the letter that was just pushed. The one that comes last in the
+/// source is closest to the letter.
+fn push_accents(builder: &mut StringBuilder, pending_accents: &mut Vec<char>) {
+    for accent in pending_accents.drain(..).rev() {
+        builder.push_char(accent);
+    }
+}
+
 /// Close the scope of a command whose argument is complete, together with the scopes of all the
 /// commands of which it was the argument itself, as in `\text\textbf{a}`.
 ///
-- 
2.43.0


From dd63acc64e72bb8a1ccaf3aee173b6cfd53837fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 43/46] fix: let \big delimiters in \mathrel{...} and the like
 keep their size

---
 crates/math-core/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index e8cf8ef..2aee3f9 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -964,8 +964,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         right: _,
                     } => Ok(Node::Operator {
                         op,
-                        // The operator of a command like `\big` is explicitly stretchy.
-                        attrs: if attrs.contains(OpAttrs::STRETCHY_TRUE) {
+                        // The operator of a command like `\big` has to stretch to its size.
+                        attrs: if size.is_some() || attrs.contains(OpAttrs::STRETCHY_TRUE) {
                             attrs
                         } else {
                             attrs | OpAttrs::STRETCHY_FALSE
-- 
2.43.0


From 070435c12e30c98a6ab37443ccc3d1020175ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 44/46] fix: space \colon as punctuation

---
 crates/math-core/src/commands.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math-core/src/commands.rs b/crates/math-core/src/commands.rs
index 835c63e..a208612 100644
--- a/crates/math-core/src/commands.rs
+++ b/crates/math-core/src/commands.rs
@@ -265,7 +265,7 @@ static COMMANDS: phf::Map<&'static str, Token> = phf::phf_map! {
     "clubs" => Letter(SuperChar::from_char(symbol::BLACK_CLUB_SUIT), Mode::Math),
     "clubsuit" => Letter(SuperChar::from_char(symbol::BLACK_CLUB_SUIT), Mode::Math),
     "cnums" => Letter(SuperChar::from_char(symbol::DOUBLE_STRUCK_CAPITAL_C), Mode::Math),
-    "colon" => Letter(symbol::COLON.as_op().as_superchar(), Mode::Math),
+    "colon" => Punctuation(symbol::COLON),
     "colonapprox" => CustomCmd(0, &predefined::COLON_APPROX),
     "coloncolon" => CustomCmd(0, &predefined::DOUBLE_COLON),
     "coloncolonapprox" => CustomCmd(0, &predefined::DOUBLE_COLON_APPROX),
-- 
2.43.0


From e8d5df419c8902c5a4b27b552effe856f983774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 45/46] fix: a star behind a command name is a token of its own

\pi*r and \alpha*2 were rejected as the unknown commands \pi* and \alpha*.
Only \operatorname and \tag have a starred form.
---
 crates/math-core/src/lexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/lexer.rs b/crates/math-core/src/lexer.rs
index 36082cf..e6aa49e 100644
--- a/crates/math-core/src/lexer.rs
+++ b/crates/math-core/src/lexer.rs
@@ -79,8 +79,9 @@ impl<'source> Lexer<'source> {
             self.read_char();
         }
 
-        // Commands may end with a "*".
-        if self.peek.1 == Some('*') {
+        // Some commands have a starred form. After any other name, a "*" is a token of its own.
+        let name = self.input_string.get_unwrap(start..self.peek.0);
+        if self.peek.1 == Some('*') && matches!(name, "operatorname" | "tag") {
             self.read_char();
         }
 
-- 
2.43.0


From 86b6e71b31bc3179d742f32a054b2e924185d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 46/46] fix: list every symbol the converter can output

The list for font subsetting missed the letters of \mathbb outside the
Mathematical Alphanumeric Symbols block, the sans-serif digit nine and
the characters of \textquotedblleft and \rupee.
---
 scripts/generate_symbol_document.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/generate_symbol_document.py b/scripts/generate_symbol_document.py
index 0883a22..fb4f34a 100644
--- a/scripts/generate_symbol_document.py
+++ b/scripts/generate_symbol_document.py
@@ -92,13 +92,13 @@ def math_script_blocks() -> list[str]:
     # Sans-serif (latin)
     code_points.append(range(0x1D5A0, 0x1D5D4))
     # Sans-serif (digits)
-    code_points.append(range(0x1D7E2, 0x1D7EB))
+    code_points.append(range(0x1D7E2, 0x1D7EC))
     # Double-struck (latin)
     code_points.append(range(0x1D538, 0x1D56C))
     # Double-struck (digits)
     code_points.append(range(0x1D7D8, 0x1D7E2))
     # Double-struck from other blocks
-    stragglers += "ℂℍℕℙℚℝℤ"
+    stragglers += "ℂℍℕℙℚℝℤℼℽℾℿ"
     # Italic (latin)
     code_points.append(range(0x1D434, 0x1D468))
     # Italic (greek)
@@ -152,7 +152,10 @@ def playground_non_ascii() -> str:
 
 def special_symbols() -> str:
     # not used as a symbol, but required by MathML for `<msqrt>`
-    return "√"
+    symbols = "√"
+    # used by `\textquotedblleft` and `\rupee`, which have no constant in `symbol.rs`
+    symbols += "“₹"
+    return symbols
 
 
 def main() -> None:
-- 
2.43.0

