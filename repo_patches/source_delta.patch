From ccf82c6201bc645ac992243d302ff323ccd09b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:34 +0000
Subject: [PATCH 01/12] fix: look up long names in the order their table is
 sorted by

The code point -> long name table is sorted by character, but the fake
StringMeta code points compare below every character, so a binary search
missed six entries (RawSpace, RawExclamation, RawDoubleQuote, RawAt,
RawLeftBracket and RawBackslash) and displaying such a character panicked.
---
 crates/wolfram-parser/src/long_names.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/wolfram-parser/src/long_names.rs b/crates/wolfram-parser/src/long_names.rs
index 987c5e4..b8483ff 100644
--- a/crates/wolfram-parser/src/long_names.rs
+++ b/crates/wolfram-parser/src/long_names.rs
@@ -16,18 +16,25 @@ pub(crate) fn codepoint_has_longname(point: char) -> bool {
 }
 
 pub(crate) fn codepoint_to_longname(point: CodePoint) -> Option<&'static str> {
-    // NOTE: This assertion currently spuriously fails because the
-    //       StringMeta_DoubleQuote and StringMeta_Backslash codepoints are fake
-    //       codepoints with negative values.
-    /*
+    // The table is sorted by the character that each long name stands for. The
+    // StringMeta_DoubleQuote and StringMeta_Backslash codepoints are fake
+    // codepoints with negative values, so they have to be compared as the
+    // character they stand for.
+    fn sort_key(point: CodePoint) -> CodePoint {
+        match point {
+            CodePoint::StringMeta_DoubleQuote => CodePoint::Char('"'),
+            CodePoint::StringMeta_Backslash => CodePoint::Char('\\'),
+            point => point,
+        }
+    }
+
     debug_assert!(utils::is_sorted_by(
         &CODEPOINT_TO_LONGNAME_MAP,
-        |(point, _): &(CodePoint, &str)| *point
+        |(point, _): &(CodePoint, &str)| sort_key(*point)
     ));
-    */
 
     let index: usize = CODEPOINT_TO_LONGNAME_MAP
-        .binary_search_by(|(cp, _)| cp.cmp(&point))
+        .binary_search_by(|(cp, _)| sort_key(*cp).cmp(&sort_key(point)))
         .ok()?;
 
     let (_, longname) = CODEPOINT_TO_LONGNAME_MAP[index];
-- 
2.43.0


From fecb2a533db4b976e1d7e21141b33fc3fc00b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:55 +0000
Subject: [PATCH 02/12] fix: do not panic on escapes that name a surrogate code
 point

\:d800 and \|00d800 are no characters; treat them like the out of range
escapes (backtrack and report the backslash) instead of unwrapping None.
---
 .../wolfram-parser/src/read/character_decoder.rs   | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/wolfram-parser/src/read/character_decoder.rs b/crates/wolfram-parser/src/read/character_decoder.rs
index 0752264..9f31f1b 100644
--- a/crates/wolfram-parser/src/read/character_decoder.rs
+++ b/crates/wolfram-parser/src/read/character_decoder.rs
@@ -641,7 +641,13 @@ fn CharacterDecoder_handle4Hex(
     let d1 = u32::from(utils::toDigit(hexStartBuf[2]));
     let d0 = u32::from(utils::toDigit(hexStartBuf[3]));
     let point: u32 = d3 << 12 | d2 << 8 | d1 << 4 | d0;
-    let mut point = CodePoint::from_u32(point).unwrap();
+
+    // Surrogate code points (\:d800 .. \:dfff) are not characters.
+    let Some(mut point) = CodePoint::from_u32(point) else {
+        session.seek(colon);
+
+        return WLCharacter::new('\\');
+    };
 
     match point {
         CodePoint::Char(CODEPOINT_ACTUAL_DOUBLEQUOTE) => {
@@ -960,13 +966,11 @@ fn CharacterDecoder_handle6Hex(
 
     // TODO: Is this logic here correct? Why always return a \ if point is out
     //       of range?
-    if point > 0x10ffff {
+    let Some(mut point) = CodePoint::from_u32(point) else {
         session.seek(bar);
 
         return WLCharacter::new('\\');
-    }
-
-    let mut point = CodePoint::from_u32(point).unwrap();
+    };
 
     //
     // Success!
-- 
2.43.0


From 473a0d73172d58ed84d4a330b1438431f162f323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:09 +0000
Subject: [PATCH 03/12] fix: keep a leading # that does not start a #! line

With FirstLineBehavior Check or Script, input starting with # but not #!
(for example '#1 + 2') lost the # token.
---
 .../wolfram-parser/src/tokenize/tokenizer.rs  | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 4dc8919..89de383 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -175,21 +175,23 @@ impl<'i> Tokenizer<'i> {
                 // Handle the optional #! shebang
                 //
 
-                let mut peek = self.peek_token();
+                let hash = self.peek_token();
 
-                if peek.tok != TokenKind::Hash {
+                if hash.tok != TokenKind::Hash {
                     // not #!
 
                     return;
                 }
 
-                peek.skip(self);
+                hash.skip(self);
 
-                peek = self.peek_token();
+                let peek = self.peek_token();
 
                 if peek.tok != TokenKind::Bang {
                     // not #!
 
+                    hash.reset(self);
+
                     return;
                 }
 
@@ -229,9 +231,9 @@ impl<'i> Tokenizer<'i> {
                 // Handle the #! shebang
                 //
 
-                let mut peek = self.peek_token();
+                let hash = self.peek_token();
 
-                if peek.tok != TokenKind::Hash {
+                if hash.tok != TokenKind::Hash {
                     //
                     // TODO: add to Issues
                     //
@@ -239,15 +241,17 @@ impl<'i> Tokenizer<'i> {
                     return;
                 }
 
-                peek.skip(self);
+                hash.skip(self);
 
-                peek = self.peek_token();
+                let peek = self.peek_token();
 
                 if peek.tok != TokenKind::Bang {
                     //
                     // TODO: add to Issues
                     //
 
+                    hash.reset(self);
+
                     return;
                 }
 
-- 
2.43.0


From 34d6f1ecbffb6aa3e758e801b41ddfc7cf3f5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:21 +0000
Subject: [PATCH 04/12] fix: negating or flattening a product does not assume
 its separators are *

---
 crates/wolfram-parser/src/abstract_cst.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index a31d31c..5f5f284 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1699,8 +1699,9 @@ impl<I: TokenInput + Debug, S: TokenSource + Debug> Negated<I, S> {
                 }
             },
             Negated::InfixTimesSeq(NodeSeq(children)) => {
-                let children =
-                    part_span_even_children(children, Some(TK::Star));
+                // The separators may be any kind of Times token: `*`, \[Times],
+                // or an implicit times.
+                let children = part_span_even_children(children, None);
 
                 let infix = InfixNode(OperatorNode {
                     op: InfixOperator::Times,
@@ -2058,7 +2059,7 @@ where
             op: InfixOperator::Times,
             children: NodeSeq(children),
         })) => {
-            let children = part_span_even_children(children, Some(TK::Star));
+            let children = part_span_even_children(children, None);
 
             flattenTimes(children, data.clone())
         },
-- 
2.43.0


From 54c1230f67aa43062aef7243df61d4851964af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:21 +0000
Subject: [PATCH 05/12] fix: a derivative keeps its source

---
 crates/wolfram-parser/src/abstract_cst.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 5f5f284..08f8aae 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -545,7 +545,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     AstMetadata::empty(),
                                 ),
                                 vec![abstractedBody],
-                                AstMetadata::empty(),
+                                data,
                             )
                         },
                         // PostfixNode[Derivative, {rand_, LeafNode[Token`Boxes`MultiSingleQuote, quoteStr_, _]}, data_]
@@ -563,7 +563,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     AstMetadata::empty(),
                                 ),
                                 vec![abstract_(operand)],
-                                AstMetadata::empty(),
+                                data,
                             )
                         },
                         _ => unhandled(),
-- 
2.43.0


From 5bab4f24ad84481dbb2edb3a0bcc36359203163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:21 +0000
Subject: [PATCH 06/12] fix: negating an empty parenthesized group does not
 panic

---
 crates/wolfram-parser/src/abstract_cst.rs | 24 +++++++++--------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 08f8aae..479b427 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -212,9 +212,6 @@ macro_rules! expect_children {
     ($children:ident, {$name1:ident:_, $name2:ident:_}) => {
         let [$name1, $name2] = expect_children($children);
     };
-    ($children:ident, {_, $name1:ident:_, _}) => {
-        let [_, $name1, _] = expect_children($children);
-    };
     ($children:ident, {$name1:ident, _, $name2:ident:_}) => {
         let [$name1, _, $name2] = expect_children($children);
     };
@@ -1576,13 +1573,10 @@ fn parenthesizedIntegerOrRealQ<I: Debug, S: Debug>(node: &Cst<I, S>) -> bool {
         Cst::Group(GroupNode(OperatorNode {
             op: GroupOperator::CodeParser_GroupParen,
             children,
-        })) => {
-            let [_, child, _]: &[_; 3] =
-                children.0.as_slice().try_into().expect(
-                    "GroupParen Group node has unexpected number of children",
-                );
-
-            parenthesizedIntegerOrRealQ(child)
+        })) => match children.0.as_slice() {
+            [_, child, _] => parenthesizedIntegerOrRealQ(child),
+            // E.g. `()`
+            _ => false,
         },
         // parenthesizedIntegerOrRealQ[LeafNode[Integer, _, _]] := True
         // parenthesizedIntegerOrRealQ[LeafNode[Real, _, _]] := True
@@ -1634,11 +1628,11 @@ fn possiblyNegatedZeroQ<I: TokenInput + Debug, S: Debug>(
         //     possiblyNegatedZeroQ[child]
         Cst::Group(GroupNode(OperatorNode {
             op: GroupOperator::CodeParser_GroupParen,
-            children,
-        })) => {
-            expect_children!(children, {_, child:_, _});
-
-            possiblyNegatedZeroQ(child)
+            children: NodeSeq(children),
+        })) => match <[_; 3]>::try_from(children) {
+            Ok([_, child, _]) => possiblyNegatedZeroQ(child),
+            // E.g. `()`
+            Err(_) => false,
         },
         // possiblyNegatedZeroQ[PrefixNode[Minus, { _, child_}, _]] :=
         //     possiblyNegatedZeroQ[child]
-- 
2.43.0


From fb04f7380cf3074421a2abdc8ca33812ae02a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:21 +0000
Subject: [PATCH 07/12] fix: Get, Put and PutAppend without a file name are
 abstracted

---
 crates/wolfram-parser/src/abstract_cst.rs | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 479b427..5e73548 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -497,7 +497,8 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                         )],
                         data,
                     ),
-                    _ => unhandled(),
+                    // The file is missing, e.g. `<<` at the end of the input.
+                    rand => Ast::call(st::Get, vec![abstract_(rand)], data),
                 }
             },
 
@@ -617,25 +618,24 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                     data,
                 ),
                 BinaryOperator::Put | BinaryOperator::PutAppend => {
-                    let (str, data1) = match right {
+                    let file = match right {
                         // {left_, _, LeafNode[String, str_, data1_]}
                         Cst::Token(Token {
                             tok: TokenKind::String,
-                            ref input,
+                            input: str,
                             src: data1,
-                        }) => (input.as_str(), data1),
-                        _ => unhandled(),
+                        }) => Ast::string(
+                            escapeString_of_abstractFileString(str.as_str()),
+                            data1,
+                        ),
+                        // The file is missing, e.g. `a >>` at the end of the
+                        // input.
+                        right => abstract_(right),
                     };
 
                     Ast::call(
                         op.to_symbol(),
-                        vec![
-                            abstract_(left),
-                            Ast::string(
-                                escapeString_of_abstractFileString(str),
-                                data1,
-                            ),
-                        ],
+                        vec![abstract_(left), file],
                         data,
                     )
                 },
-- 
2.43.0


From f40962e33d399fafa51d064a864b7e7e4b2a5b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:18 +0000
Subject: [PATCH 08/12] fix: bracketed groups with several children are
 abstracted as syntax errors

---
 crates/wolfram-parser/src/abstract_cst.rs | 33 ++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 5e73548..805fbf7 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1028,7 +1028,16 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![],
                             data,
                         ),
-                        _ => unhandled(),
+                        // More than one child, because of an unexpected closer
+                        children => Ast::abstract_syntax_error(
+                            AbstractSyntaxError::OpenSquare,
+                            abstract_cst_seq(NodeSeq(
+                                part_span_drop_first_and_last(
+                                    children.to_vec(),
+                                ),
+                            )),
+                            data,
+                        ),
                     }
                 },
 
@@ -1066,7 +1075,16 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![],
                             data,
                         ),
-                        _ => unhandled(),
+                        // More than one child, because of an unexpected closer
+                        children => Ast::abstract_syntax_error(
+                            AbstractSyntaxError::ColonColonOpenSquare,
+                            abstract_cst_seq(NodeSeq(
+                                part_span_drop_first_and_last(
+                                    children.to_vec(),
+                                ),
+                            )),
+                            data,
+                        ),
                     }
                 },
 
@@ -1104,7 +1122,16 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![],
                             data,
                         ),
-                        _ => unhandled(),
+                        // More than one child, because of an unexpected closer
+                        children => Ast::abstract_syntax_error(
+                            AbstractSyntaxError::LeftDoubleBracket,
+                            abstract_cst_seq(NodeSeq(
+                                part_span_drop_first_and_last(
+                                    children.to_vec(),
+                                ),
+                            )),
+                            data,
+                        ),
                     }
                 },
 
-- 
2.43.0


From 834adcb57b734819ac78eb3d58cb8c7bec11082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:18 +0000
Subject: [PATCH 09/12] fix: only a lone inner group makes a call a Part

---
 .../src/abstract_cst/abstract_call_node.rs        | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs b/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
index b38cc87..94418cc 100644
--- a/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
+++ b/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
@@ -88,11 +88,16 @@ pub(super) fn abstract_call_node<
                 })),
             src: data,
         } if matches!(
-            children.0[1], // inner
-            Cst::Group(GroupNode(OperatorNode {
-                op: GroupOperator::CodeParser_GroupSquare,
-                ..
-            }))
+            children.0.as_slice(),
+            // {first_, inner_, last_}
+            [
+                _,
+                Cst::Group(GroupNode(OperatorNode {
+                    op: GroupOperator::CodeParser_GroupSquare,
+                    ..
+                })),
+                _
+            ]
         ) =>
         {
             // {first_, inner:GroupNode[GroupSquare, _, _], last_}
-- 
2.43.0


From f30bba3ca8f3e372ed11942da7f87e60f7b8045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:18 +0000
Subject: [PATCH 10/12] fix: the text of an unterminated token includes its
 last line

---
 crates/wolfram-parser/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index e5472b1..f6f7df6 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -156,7 +156,7 @@ fn reparse_unterminated_token_error_node<'i>(
 
             if first_chunk.len() > 1 {
                 components.extend(
-                    first_chunk[1..last_good_line_index]
+                    first_chunk[1..=last_good_line_index]
                         .iter()
                         .map(|line: &Line| line.content),
                 );
-- 
2.43.0


From 80361faa60c311bdee415dbcc0de6ededa8a3ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:14 +0000
Subject: [PATCH 11/12] fix: unquoted file names may contain $ after their
 first character

---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 89de383..1ec55c5 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -1773,7 +1773,7 @@ fn Tokenizer_handleString_stringifyAsFile<'i>(
             #[rustfmt::skip]
             Char(
                 'A'..='Z' | 'a'..='z' | '0'..='9'
-                | '`' | '/' | '.' | '\\' | '!'
+                | '$' | '`' | '/' | '.' | '\\' | '!'
                 | '-' | '_' | ':' | '*' | '~' | '?',
             ) => {
                 session.next_source_char(policy);
-- 
2.43.0


From 47a5dcb4a45aacd2312df47c74a78eba1f4aa60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:14 +0000
Subject: [PATCH 12/12] fix: a span overlaps a span that contains it

---
 crates/wolfram-parser/src/source.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/source.rs b/crates/wolfram-parser/src/source.rs
index be4c7ad..c975fa8 100644
--- a/crates/wolfram-parser/src/source.rs
+++ b/crates/wolfram-parser/src/source.rs
@@ -899,7 +899,9 @@ impl LineColumnSpan {
     pub fn overlaps(&self, cursor: LineColumnSpan) -> bool {
         let LineColumnSpan { start, end } = cursor;
 
-        self.contains(start) || self.contains(end)
+        self.contains(start)
+            || self.contains(end)
+            || cursor.contains(self.start)
     }
 
     #[cfg_attr(not(debug_assertions), allow(dead_code))]
-- 
2.43.0

