From aecc0f7482cc1a9a63814ef0756893b621cdead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 01/31] fix: parse inputs on which the start rule does not
 match at all

The engine unwrapped the result of the start rule, so such an input (an empty
JSON document, for example) panicked instead of yielding a file with an ERROR.
---
 fall/parse/src/syn_engine/expr.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 1e2d304..cdd8f49 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -20,7 +20,18 @@ pub(crate) fn parse(
     let (mut parser, pos) = Parser::new(prev, &grammar, &is_ws, text, tokens);
 
     let start_rule = parser.grammar.start_rule;
-    let mut leftover = parse_expr(&mut parser, start_rule, pos).unwrap();
+    let mut leftover = match parse_expr(&mut parser, start_rule, pos) {
+        Some(leftover) => leftover,
+        None => {
+            // The input is not even a prefix of a file: all of it becomes a leftover.
+            match parser.grammar[start_rule] {
+                Expr::Pub { ty, .. } => parser.start(ty),
+                _ => unreachable!(),
+            };
+            parser.finish();
+            pos
+        }
+    };
     if !leftover.is_empty() {
         parser.reopen();
         parser.start_error();
-- 
2.43.0


From db4eed6544c87e096d4878b6e51fb178a6b173d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 02/31] fix: no event rewriting inside predicates

Inside a lookahead no events are recorded, so forward_parent and replace
indexed past the end of the events, or changed events of an enclosing rule.
---
 fall/parse/src/syn_engine/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 25f40d5..d6109e0 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -150,6 +150,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn replace(&mut self, mark: Mark, ty_idx: NodeTypeRef) {
+        if self.predicate_mode {
+            return;
+        }
         let ty = self[ty_idx];
         match self.events[mark.0 as usize] {
             Event::Start { ty: ref mut prev, .. } => *prev = ty,
@@ -158,6 +161,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn forward_parent(&mut self, child: Mark, parent: Mark) {
+        if self.predicate_mode {
+            return;
+        }
         match self.events[child.0 as usize] {
             Event::Start { ref mut forward_parent, .. } =>
                 *forward_parent = Some(parent.0 - child.0),
-- 
2.43.0


From 9c9bb16c5bf5f9a9fce1ce44bd03bc2d7d5a4a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 03/31] fix: failed attempts and predicates leave no trace in
 prev and replacement

A rule tried and abandoned, or only looked ahead at, still counted as the
previous node for <prev_is>, and could replace the type of the enclosing node.
---
 fall/parse/src/syn_engine/expr.rs   |  3 +++
 fall/parse/src/syn_engine/parser.rs | 28 +++++++++++++++++++---------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index cdd8f49..ca0f08f 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -58,9 +58,12 @@ pub(crate) fn parse_expr(p: &mut Parser, expr: ExprRef, tokens: Pos) -> Option<P
 
 fn parse_expr_pred(p: &mut Parser, expr: ExprRef, tokens: Pos) -> Option<Pos> {
     let old_mode = p.predicate_mode;
+    let mark = p.mark();
     p.predicate_mode = true;
     let result = parse_expr(p, expr, tokens);
     p.predicate_mode = old_mode;
+    // A predicate only looks at the input, even if it succeeds.
+    p.rollback(mark);
     result
 }
 
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index d6109e0..839f08b 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -34,7 +34,11 @@ impl Pos {
     }
 }
 
-pub(crate) struct Mark(u32);
+pub(crate) struct Mark {
+    event: u32,
+    replacement: Option<NodeTypeRef>,
+    prev: Option<NodeType>,
+}
 
 impl<'g> Parser<'g> {
     pub fn new(
@@ -119,8 +123,8 @@ impl<'g> Parser<'g> {
 
     pub fn finish_cached(&mut self, mark: Mark) {
         if !self.predicate_mode {
-            let len = self.events.len() as u32 - (mark.0 + 1);
-            match self.events[mark.0 as usize] {
+            let len = self.events.len() as u32 - (mark.event + 1);
+            match self.events[mark.event as usize] {
                 Event::Cached { ref mut n_events, .. } => *n_events = len,
                 _ => unreachable!(),
             }
@@ -137,7 +141,11 @@ impl<'g> Parser<'g> {
     }
 
     pub fn mark(&self) -> Mark {
-        Mark(self.events.len() as u32)
+        Mark {
+            event: self.events.len() as u32,
+            replacement: self.replacement,
+            prev: self.prev,
+        }
     }
 
     pub fn rollback(&mut self, mark: Mark) {
@@ -146,7 +154,9 @@ impl<'g> Parser<'g> {
             unsafe { xs.set_len(len) }
         }
 
-        truncate_fast(&mut self.events, mark.0 as usize);
+        truncate_fast(&mut self.events, mark.event as usize);
+        self.replacement = mark.replacement;
+        self.prev = mark.prev;
     }
 
     pub fn replace(&mut self, mark: Mark, ty_idx: NodeTypeRef) {
@@ -154,7 +164,7 @@ impl<'g> Parser<'g> {
             return;
         }
         let ty = self[ty_idx];
-        match self.events[mark.0 as usize] {
+        match self.events[mark.event as usize] {
             Event::Start { ty: ref mut prev, .. } => *prev = ty,
             _ => unreachable!()
         }
@@ -164,9 +174,9 @@ impl<'g> Parser<'g> {
         if self.predicate_mode {
             return;
         }
-        match self.events[child.0 as usize] {
+        match self.events[child.event as usize] {
             Event::Start { ref mut forward_parent, .. } =>
-                *forward_parent = Some(parent.0 - child.0),
+                *forward_parent = Some(parent.event - child.event),
             _ => unreachable!(),
         }
     }
@@ -218,7 +228,7 @@ impl<'g> Parser<'g> {
     }
 
     fn start_ty(&mut self, ty: NodeType) -> Mark {
-        let mark = Mark(self.events.len() as u32);
+        let mark = self.mark();
         self.event(Event::Start { ty, forward_parent: None });
         mark
     }
-- 
2.43.0


From ae1d61c40d4d97613d7b7b65667498ace118d4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 04/31] fix: reuse of cached rules at the end of input, at
 layer ends and in predicates

get_from_cache indexed past the last token, took segments reaching beyond the
end of the enclosing layer, and recorded events while in predicate mode.
---
 fall/parse/src/syn_engine/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 839f08b..7cb7e64 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -104,10 +104,18 @@ impl<'g> Parser<'g> {
     }
 
     pub fn get_from_cache(&mut self, expr: ExprRef, pos: Pos) -> Option<Pos> {
+        if pos.is_empty() {
+            return None;
+        }
         if let Some((ref cache, events)) = self.cache {
             let text_pos = self.non_ws_indexes[pos.0 as usize].0;
             if let Some(&(start_event, n_events, n_tokens)) = cache.get(&(text_pos, expr)) {
-                self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
+                if pos.0 + n_tokens > pos.1 {
+                    return None;
+                }
+                if !self.predicate_mode {
+                    self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
+                }
                 return Some(Pos(pos.0 + n_tokens, pos.1));
             }
         }
-- 
2.43.0


From 9f84d240e4ba3fb2a2bfca64c56b0c65b70c7317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 05/31] fix: do not salvage parsed segments whose tokens have
 changed

A segment copied unchanged by an edit can still be lexed differently, when the
edit closes a string left open inside it; the old events then did not fit the
new tokens.
---
 fall/parse/src/lex_engine.rs     |  2 +-
 fall/parse/src/lib.rs            |  1 +
 fall/parse/src/syn_engine/mod.rs | 21 ++++++++++++++++++++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/fall/parse/src/lex_engine.rs b/fall/parse/src/lex_engine.rs
index fe89118..51a7bc2 100644
--- a/fall/parse/src/lex_engine.rs
+++ b/fall/parse/src/lex_engine.rs
@@ -1,7 +1,7 @@
 use std::cmp::Ordering;
 use fall_tree::{Text, tu, TextSuffix, TextEditOp, TextEdit, TextUnit, NodeType, ERROR};
 
-#[derive(Debug, Copy, Clone)]
+#[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub struct Token {
     pub ty: NodeType,
     pub len: TextUnit,
diff --git a/fall/parse/src/lib.rs b/fall/parse/src/lib.rs
index d7f1671..9aa4fca 100644
--- a/fall/parse/src/lib.rs
+++ b/fall/parse/src/lib.rs
@@ -224,6 +224,7 @@ pub fn reparse(
     let salvaged = syn_engine::salvage_segments(
         &incremental_data.events,
         &incremental_data.tokens,
+        &tokens,
         &|t| lang.node_type_info(t.ty).whitespace_like,
         edit,
     );
diff --git a/fall/parse/src/syn_engine/mod.rs b/fall/parse/src/syn_engine/mod.rs
index b362028..4729549 100644
--- a/fall/parse/src/syn_engine/mod.rs
+++ b/fall/parse/src/syn_engine/mod.rs
@@ -40,6 +40,7 @@ pub(crate) enum Event {
 pub(crate) fn salvage_segments(
     old_events: &[Event],
     old_tokens: &[Token],
+    new_tokens: &[Token],
     is_ws: &dyn Fn(&Token) -> bool,
     edit: &TextEdit,
 ) -> HashMap<(TextUnit, ExprRef), (u32, u32, u32)> {
@@ -66,6 +67,20 @@ pub(crate) fn salvage_segments(
         skip_ws(tok, text);
     };
 
+    // Untouched text does not imply untouched tokens: what follows it may,
+    // for example, close a string which was unterminated before.
+    let mut new_len = tu(0);
+    let new_offsets: Vec<TextUnit> = new_tokens.iter().map(|token| {
+        let offset = new_len;
+        new_len += token.len;
+        offset
+    }).collect();
+    let same_tokens = |old: &[Token], new_start: TextUnit| {
+        new_offsets.binary_search(&new_start)
+            .map(|idx| new_tokens[idx..].starts_with(old))
+            .unwrap_or(false)
+    };
+
     skip_ws(&mut raw_token_pos, &mut text_pos);
 
     let mut events = old_events.iter();
@@ -81,6 +96,7 @@ pub(crate) fn salvage_segments(
 
             Event::Cached { key, n_events } => {
                 let start = text_pos;
+                let start_token = raw_token_pos;
                 let mut n_tokens = 0u32;
                 let mut has_error = false;
                 for _ in 0..n_events {
@@ -99,6 +115,7 @@ pub(crate) fn salvage_segments(
                 }
 
                 let end = text_pos;
+                let segment_tokens = &old_tokens[start_token..raw_token_pos];
                 let range = TextRange::from_to(start, end);
 
                 let mut inserted = tu(0);
@@ -106,7 +123,9 @@ pub(crate) fn salvage_segments(
                     match *op {
                         TextEditOp::Copy(copy) => if range.is_subrange_of(copy) {
                             let fixed_start = inserted + (start - copy.start());
-                            result.insert((fixed_start, ExprRef(key)), (start_event, n_events, n_tokens));
+                            if same_tokens(segment_tokens, fixed_start) {
+                                result.insert((fixed_start, ExprRef(key)), (start_event, n_events, n_tokens));
+                            }
                         } else {
                             inserted += copy.len()
                         }
-- 
2.43.0


From b1c8bebf5bc8b104b6da4f1c44dd2fb45027deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 06/31] fix: raw strings with more than thirty hashes

The closing delimiter was cut from a fixed-size constant, which panicked.
---
 lang/fall/syntax/src/fall.fall | 6 ++----
 lang/fall/syntax/src/fall.rs   | 6 ++----
 lang/rust/syntax/src/rust.fall | 6 ++----
 lang/rust/syntax/src/rust.rs   | 6 ++----
 4 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index c371f98..5f26d7c 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -250,10 +250,8 @@ verbatim r#########"
 
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more then 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", &s[1..quote_start]);
+    s[quote_start + 1..].find(closing.as_str()).map(|i| i + quote_start + 1 + closing.len())
 }
 
 "#########
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index 530551a..6929f7e 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -188,10 +188,8 @@ pub fn language() -> &'static rt::Language {
 }
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more then 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", &s[1..quote_start]);
+    s[quote_start + 1..].find(closing.as_str()).map(|i| i + quote_start + 1 + closing.len())
 }
 #[allow(unused)]
 use self::rt::AstNode;
diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index d2dcbd2..eb4d419 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -1293,10 +1293,8 @@ fn whitespace_binder(ty: rt::NodeType, adjacent_tokens: Vec<(rt::NodeType, &str)
 
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more than 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", &s[1..quote_start]);
+    s[quote_start + 1..].find(closing.as_str()).map(|i| i + quote_start + 1 + closing.len())
 }
 
 fn parse_block_comment(s: &str) -> Option<usize> {
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 223c058..addb3a9 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -571,10 +571,8 @@ fn whitespace_binder(ty: rt::NodeType, adjacent_tokens: Vec<(rt::NodeType, &str)
 }
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more than 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", &s[1..quote_start]);
+    s[quote_start + 1..].find(closing.as_str()).map(|i| i + quote_start + 1 + closing.len())
 }
 fn parse_block_comment(s: &str) -> Option<usize> {
     let mut s = &s[2..];
-- 
2.43.0


From ac4abc20e2306d07e1cda56d8053f93f06d43343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 07/31] fix: bind the arguments of a rule call simultaneously

A parameter passed on was looked up in the half-updated bindings, so a rule
calling itself with its parameters swapped got the same argument twice.
---
 fall/parse/src/syn_engine/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index ca0f08f..d0bdbb2 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -337,7 +337,7 @@ fn parse_call<'g>(
     let old = p.args;
     for &(arg_pos, arg) in args {
         let arg = match p.grammar[arg] {
-            Expr::Var(i) => p.args[i.0 as usize].unwrap(),
+            Expr::Var(i) => old[i.0 as usize].unwrap(),
             _ => arg
         };
 
-- 
2.43.0


From 1a0bed7383032c127fceff9d1b4844e2a9b20ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 08/31] fix: keep every insertion of a file edit

Only the first text inserted after a node was kept, and none after a deleted or replaced node.
---
 fall/tree/src/edit.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/fall/tree/src/edit.rs b/fall/tree/src/edit.rs
index 02e0b6e..70262d6 100644
--- a/fall/tree/src/edit.rs
+++ b/fall/tree/src/edit.rs
@@ -62,20 +62,16 @@ impl<'f> FileEdit<'f> {
     fn text_edit_for_node(&self, node: Node<'f>, edit_builder: &mut TextEditBuilder) {
         if self.deleted.iter().find(|&&n| n == node).is_some() {
             edit_builder.delete(node.range());
-            return;
-        }
-
-        if let Some(&(_, ref replacement)) = self.replaced.iter().find(|&&(n, _)| n == node) {
+        } else if let Some(&(_, ref replacement)) = self.replaced.iter().find(|&&(n, _)| n == node) {
             edit_builder.replace(node.range(), replacement.as_ref());
-            return;
-        }
-
-        for child in node.children() {
-            self.text_edit_for_node(child, edit_builder);
+        } else {
+            for child in node.children() {
+                self.text_edit_for_node(child, edit_builder);
+            }
         }
 
-        if let Some(&(_, ref replacement)) = self.inserted.iter().find(|&&(n, _)| n == node) {
-            edit_builder.insert(node.range().end(), replacement.as_ref());
+        for &(_, ref text) in self.inserted.iter().filter(|&&(n, _)| n == node) {
+            edit_builder.insert(node.range().end(), text.as_ref());
         }
     }
 }
-- 
2.43.0


From 8ef4a619538480a65a965bc3b14c9a57e5814652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 09/31] fix: parse compound shift assignments in Rust

---
 lang/rust/syntax/src/rust.fall | 2 +-
 lang/rust/syntax/src/rust.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index eb4d419..d2d7fd7 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -1074,7 +1074,7 @@ pub rule comparison {
 }
 
 rule cmp_op {
-  '==' | '!=' | '<' | '>' | '<=' | '>='
+  '==' | '!=' | '<' <not '<='> | '>' <not '>='> | '<=' | '>='
 }
 
 #[bin(4)]
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index addb3a9..d4ac131 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":221,"replaceable":false}},{"Pub":{"ty":97,"body":228,"replaceable":false}},{"Pub":{"ty":98,"body":244,"replaceable":false}},{"Or":[246]},{"Pub":{"ty":99,"body":251,"replaceable":false}},{"Or":[257]},{"Pub":{"ty":100,"body":260,"replaceable":false}},{"Pub":{"ty":101,"body":266,"replaceable":false}},{"Pub":{"ty":102,"body":283,"replaceable":false}},{"Pub":{"ty":103,"body":302,"replaceable":false}},{"Pub":{"ty":104,"body":307,"replaceable":false}},{"Pub":{"ty":105,"body":310,"replaceable":false}},{"Pub":{"ty":106,"body":317,"replaceable":false}},{"Pub":{"ty":107,"body":330,"replaceable":false}},{"Pub":{"ty":108,"body":339,"replaceable":false}},{"Pub":{"ty":109,"body":352,"replaceable":false}},{"Pub":{"ty":110,"body":360,"replaceable":false}},{"Pub":{"ty":111,"body":372,"replaceable":false}},{"Or":[373,374,375,376]},{"Or":[378,380,382,384,386,388,390,392,397]},{"Pub":{"ty":112,"body":407,"replaceable":false}},{"Pub":{"ty":113,"body":421,"replaceable":false}},{"Pub":{"ty":114,"body":425,"replaceable":false}},{"Pub":{"ty":115,"body":429,"replaceable":false}},{"Or":[437]},{"Pub":{"ty":116,"body":444,"replaceable":false}},{"Pub":{"ty":117,"body":448,"replaceable":false}},{"Or":[468]},{"Pub":{"ty":118,"body":473,"replaceable":false}},{"Pub":{"ty":119,"body":493,"replaceable":false}},{"Pub":{"ty":120,"body":503,"replaceable":false}},{"Pub":{"ty":121,"body":518,"replaceable":false}},{"Or":[519]},{"Or":[521]},{"Or":[523]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":526,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":530,"replaceable":false}},{"Pub":{"ty":122,"body":535,"replaceable":false}},{"Pub":{"ty":123,"body":542,"replaceable":false}},{"Pub":{"ty":124,"body":556,"replaceable":false}},{"Pub":{"ty":125,"body":582,"replaceable":false}},{"Pub":{"ty":126,"body":587,"replaceable":false}},{"Pub":{"ty":127,"body":591,"replaceable":false}},{"Pub":{"ty":128,"body":597,"replaceable":false}},{"Or":[598,599,600,601,602,603,604,605,606,607]},{"Pub":{"ty":129,"body":609,"replaceable":false}},{"Pub":{"ty":130,"body":611,"replaceable":false}},{"Pub":{"ty":131,"body":619,"replaceable":false}},{"Pub":{"ty":132,"body":622,"replaceable":false}},{"Pub":{"ty":133,"body":626,"replaceable":false}},{"Pub":{"ty":134,"body":632,"replaceable":true}},{"PubReplace":{"ty":135,"body":636}},{"Pub":{"ty":136,"body":639,"replaceable":false}},{"Pub":{"ty":137,"body":648,"replaceable":false}},{"Pub":{"ty":138,"body":655,"replaceable":false}},{"Pub":{"ty":100,"body":661,"replaceable":false}},{"Pub":{"ty":139,"body":664,"replaceable":false}},{"Or":[665,666,667,668,669,670,671]},{"Pub":{"ty":140,"body":674,"replaceable":false}},{"Pub":{"ty":141,"body":680,"replaceable":true}},{"PubReplace":{"ty":142,"body":692}},{"PubReplace":{"ty":143,"body":704}},{"Pub":{"ty":144,"body":711,"replaceable":false}},{"Pub":{"ty":145,"body":718,"replaceable":false}},{"Pub":{"ty":146,"body":720,"replaceable":false}},{"Pub":{"ty":147,"body":724,"replaceable":false}},{"Pub":{"ty":148,"body":730,"replaceable":true}},{"PubReplace":{"ty":149,"body":734}},{"Pub":{"ty":150,"body":739,"replaceable":false}},{"Pratt":{"atoms":[79,80,83,84,86,87,89,90,91,98,99,102,103,105,109,110,138],"prefixes":[{"ty":184,"op":120,"priority":999},{"ty":185,"op":768,"priority":999},{"ty":186,"op":769,"priority":999},{"ty":187,"op":770,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":745,"priority":999,"has_rhs":false},{"ty":178,"op":754,"priority":999,"has_rhs":false},{"ty":180,"op":762,"priority":999,"has_rhs":false},{"ty":181,"op":763,"priority":999,"has_rhs":false},{"ty":182,"op":764,"priority":999,"has_rhs":false},{"ty":183,"op":767,"priority":999,"has_rhs":false},{"ty":188,"op":778,"priority":11,"has_rhs":true},{"ty":189,"op":784,"priority":10,"has_rhs":true},{"ty":190,"op":790,"priority":9,"has_rhs":true},{"ty":191,"op":796,"priority":8,"has_rhs":true},{"ty":192,"op":798,"priority":7,"has_rhs":true},{"ty":193,"op":804,"priority":6,"has_rhs":true},{"ty":194,"op":805,"priority":5,"has_rhs":true},{"ty":195,"op":807,"priority":4,"has_rhs":true},{"ty":196,"op":809,"priority":3,"has_rhs":true},{"ty":197,"op":810,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":834,"priority":1,"has_rhs":true}]}},{"Or":[835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885]},{"Or":[887]},{"Or":[891]},{"Pub":{"ty":152,"body":902,"replaceable":false}},{"Pub":{"ty":153,"body":910,"replaceable":true}},{"PubReplace":{"ty":154,"body":923}},{"Pub":{"ty":155,"body":930,"replaceable":false}},{"Pub":{"ty":156,"body":934,"replaceable":false}},{"Pub":{"ty":157,"body":941,"replaceable":true}},{"PubReplace":{"ty":158,"body":946}},{"Pub":{"ty":159,"body":959,"replaceable":false}},{"Pub":{"ty":160,"body":971,"replaceable":false}},{"Or":[979]},{"Pub":{"ty":161,"body":983,"replaceable":false}},{"Pub":{"ty":162,"body":992,"replaceable":false}},{"Pub":{"ty":163,"body":1002,"replaceable":false}},{"Or":[1003,1004,1005,1006]},{"Or":[1008,1010,1011,1012]},{"Pub":{"ty":164,"body":1021,"replaceable":false}},{"Pub":{"ty":165,"body":1024,"replaceable":false}},{"Pub":{"ty":166,"body":1027,"replaceable":false}},{"Pub":{"ty":167,"body":1038,"replaceable":false}},{"Pub":{"ty":168,"body":1048,"replaceable":false}},{"Pub":{"ty":169,"body":1052,"replaceable":false}},{"Or":[1058]},{"Or":[1060]},{"Pub":{"ty":170,"body":1064,"replaceable":false}},{"Pub":{"ty":171,"body":1069,"replaceable":false}},{"Or":[1072]},{"Pub":{"ty":172,"body":1077,"replaceable":false}},{"Pub":{"ty":173,"body":1087,"replaceable":false}},{"Or":[1093]},{"Pub":{"ty":174,"body":1096,"replaceable":false}},{"Pub":{"ty":175,"body":1098,"replaceable":false}},{"Pub":{"ty":176,"body":1100,"replaceable":false}},{"Pub":{"ty":177,"body":1108,"replaceable":false}},{"Pub":{"ty":178,"body":1119,"replaceable":false}},{"Or":[1123]},{"Pub":{"ty":179,"body":1125,"replaceable":false}},{"Pub":{"ty":180,"body":1135,"replaceable":false}},{"Pub":{"ty":181,"body":1138,"replaceable":false}},{"Pub":{"ty":182,"body":1141,"replaceable":false}},{"Pub":{"ty":183,"body":1146,"replaceable":false}},{"Pub":{"ty":184,"body":1148,"replaceable":false}},{"Or":[1154]},{"Pub":{"ty":185,"body":1157,"replaceable":false}},{"Pub":{"ty":186,"body":1160,"replaceable":false}},{"Pub":{"ty":187,"body":1163,"replaceable":false}},{"Pub":{"ty":188,"body":1173,"replaceable":false}},{"Pub":{"ty":189,"body":1181,"replaceable":false}},{"Pub":{"ty":190,"body":1189,"replaceable":false}},{"Or":[1193,1197]},{"Pub":{"ty":191,"body":1205,"replaceable":false}},{"Pub":{"ty":192,"body":1209,"replaceable":false}},{"Pub":{"ty":193,"body":1217,"replaceable":false}},{"Pub":{"ty":194,"body":1220,"replaceable":false}},{"Or":[1222,1224,1226,1228,1230,1232]},{"Pub":{"ty":195,"body":1236,"replaceable":false}},{"Pub":{"ty":196,"body":1240,"replaceable":false}},{"Pub":{"ty":197,"body":1243,"replaceable":false}},{"Pub":{"ty":197,"body":1245,"replaceable":false}},{"Pub":{"ty":197,"body":1247,"replaceable":false}},{"Pub":{"ty":197,"body":1251,"replaceable":false}},{"Or":[1253,1255]},{"Or":[1263]},{"Pub":{"ty":198,"body":1289,"replaceable":false}},{"Pub":{"ty":199,"body":1292,"replaceable":false}},{"Pub":{"ty":200,"body":1296,"replaceable":false}},{"Or":[1299]},{"Or":[1301]},{"Pub":{"ty":201,"body":1311,"replaceable":false}},{"Pub":{"ty":202,"body":1319,"replaceable":false}},{"Pub":{"ty":203,"body":1334,"replaceable":false}},{"Pub":{"ty":204,"body":1363,"replaceable":false}},{"Or":[1373]},{"Or":[1378]},{"Or":[1383]},{"Or":[1388]},{"Or":[1393]},{"Or":[1401]},{"Or":[1416]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[2,6]]]},{"Call":[151,[[3,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"And":[[216],null]},{"Token":92},{"Opt":48},{"And":[[218,219],1]},{"Or":[217,220]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[222,223,224,225,226],2]},{"Or":[227]},{"Token":21},{"Opt":229},{"Token":35},{"Opt":231},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[91],null]},{"Token":58},{"And":[[240],null]},{"Or":[239,241]},{"And":[[230,232,233,234,235,236,11,237,238,242],4]},{"Or":[243]},{"Token":51},{"And":[[245,49],null]},{"Token":7},{"Token":90},{"Opt":248},{"And":[[247,249],null]},{"Or":[250]},{"Opt":14},{"Call":[150,[[2,12]]]},{"And":[[252,253],null]},{"Or":[254]},{"Call":[152,[[4,255]]]},{"And":[[256],null]},{"Token":59},{"And":[[63,258,49],1]},{"Or":[259]},{"Token":59},{"And":[[261,49],null]},{"Or":[262]},{"Opt":263},{"And":[[63,264],null]},{"Or":[265]},{"And":[[120],null]},{"Token":27},{"And":[[268],null]},{"Or":[267,269]},{"Opt":270},{"Token":18},{"Token":59},{"And":[[273,49],null]},{"Or":[274]},{"Opt":275},{"Token":61},{"And":[[277],null]},"Eof",{"And":[[279],null]},{"Or":[278,280]},{"And":[[271,272,276,281],2]},{"Or":[282]},{"Token":11},{"And":[[284],null]},{"ContextualToken":[4,"union"]},{"And":[[286],null]},{"Or":[285,287]},{"Token":92},{"Opt":31},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,291]]]},{"And":[[292],null]},{"Token":58},{"And":[[294],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,296]]]},{"Token":58},{"And":[[297,298],null]},{"Or":[293,295,299]},{"And":[[288,289,290,300],1]},{"Or":[301]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[303,304,305,49],2]},{"Or":[306]},{"Opt":36},{"And":[[308,49],null]},{"Or":[309]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[2,19]]]},{"Call":[151,[[3,314]]]},{"And":[[311,312,313,315],1]},{"Or":[316]},{"Token":92},{"Token":53},{"And":[[319,75],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,321]]]},{"And":[[322],null]},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,324]]]},{"And":[[325],null]},{"Or":[320,323,326]},{"Opt":327},{"And":[[318,328],1]},{"Or":[329]},{"Token":13},{"Token":92},{"Token":58},{"And":[[333],null]},{"Call":[151,[[3,1]]]},{"And":[[335],null]},{"Or":[334,336]},{"And":[[331,332,337],1]},{"Or":[338]},{"Token":35},{"Opt":340},{"Token":17},{"Opt":31},{"Token":23},{"And":[[344,49],null]},{"Or":[345]},{"Opt":346},{"And":[[49,347],null]},{"Or":[348]},{"Opt":37},{"And":[[341,342,343,349,350,23],2]},{"Or":[351]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,353,354,355,356,357,358,23],3]},{"Or":[359]},{"Opt":36},{"And":[[145,361],null]},{"Or":[362]},{"Inject":[363,24]},{"And":[[364],null]},{"And":[[28],null]},{"Or":[365,366]},{"WithSkip":[25,367]},{"Rep":368},{"Call":[151,[[3,369]]]},{"And":[[370],null]},{"Or":[371]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[377],null]},{"Token":8},{"And":[[379],null]},{"Token":20},{"And":[[381],null]},{"Token":21},{"And":[[383],null]},{"Token":22},{"And":[[385],null]},{"Token":35},{"And":[[387],null]},{"Token":65},{"And":[[389],null]},{"Token":7},{"And":[[391],null]},{"Token":92},{"Token":82},{"And":[[393,394],null]},{"Or":[395]},{"And":[[396],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[401,49],null]},{"Or":[402]},{"Opt":403},{"Token":58},{"And":[[398,399,400,404,405],1]},{"Or":[406]},{"Token":21},{"And":[[408],null]},{"Token":22},{"And":[[410],null]},{"Or":[409,411]},{"Token":92},{"Token":59},{"Token":53},{"And":[[415,75],null]},{"Or":[416]},{"Opt":417},{"Token":58},{"And":[[412,413,414,49,418,419],1]},{"Or":[420]},{"And":[[147],null]},{"Token":58},{"And":[[148,423],null]},{"Or":[422,424]},{"Rep":30},{"Call":[151,[[3,426]]]},{"And":[[10,427],null]},{"Or":[428]},{"Opt":36},{"And":[[145,430],null]},{"Or":[431]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[433,434]},{"Inject":[432,435]},{"And":[[436],null]},{"Call":[150,[[2,35]]]},{"Call":[150,[[2,32]]]},{"And":[[438,439],null]},{"Or":[440]},{"Call":[153,[[5,441]]]},{"And":[[442],null]},{"Or":[443]},{"Token":92},{"Opt":33},{"And":[[445,446],1]},{"Or":[447]},{"Token":59},{"Token":73},{"And":[[450],null]},"Eof",{"And":[[452],null]},{"Token":61},{"And":[[454],null]},{"Token":39},{"And":[[456],null]},{"Token":36},{"And":[[458],null]},{"Or":[455,457,459]},{"Not":460},{"Not":461},{"And":[[462],null]},{"Or":[451,453,463]},{"And":[[34,464],1]},{"Or":[465]},{"Rep":466},{"And":[[449,467],null]},{"Token":87},{"And":[[469],null]},{"And":[[51],null]},{"And":[[62],null]},{"Or":[470,471,472]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[477],null]},"Eof",{"And":[[479],null]},{"Token":61},{"Not":481},{"Not":482},{"And":[[483],null]},{"Or":[478,480,484]},{"And":[[476,485],1]},{"Or":[486]},{"Rep":487},{"And":[[475,488],null]},{"Or":[489]},{"Opt":490},{"And":[[474,491],1]},{"Or":[492]},{"Token":10},{"Token":6},{"And":[[495],null]},{"Token":19},{"And":[[497],null]},{"Or":[496,498]},{"Call":[152,[[4,499]]]},{"Opt":500},{"And":[[494,501],null]},{"Or":[502]},{"Token":36},{"Token":61},{"And":[[505],null]},"Eof",{"And":[[507],null]},{"Token":39},{"Not":509},{"Not":510},{"And":[[511],null]},{"Or":[506,508,512]},{"And":[[49,33,513],null]},{"Or":[514]},{"Rep":515},{"And":[[504,516],1]},{"Or":[517]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[520],null]},{"Enter":[1,41]},{"And":[[522],null]},{"Token":60},{"And":[[524,45],null]},{"Or":[525]},{"Token":60},{"Opt":527},{"And":[[528,45],null]},{"Or":[529]},{"Token":60},{"And":[[531,45],null]},{"Or":[532]},{"And":[[41,533],null]},{"Or":[534]},{"Token":5},{"And":[[49,536,49],null]},{"Or":[537]},{"Call":[153,[[5,538]]]},{"Token":60},{"And":[[539,540,45],null]},{"Or":[541]},{"Token":92},{"And":[[543],null]},{"Token":18},{"And":[[545],null]},{"Token":19},{"And":[[547],null]},{"Or":[544,546,548]},{"And":[[46],null]},{"IsIn":3},{"And":[[551,47],null]},{"Or":[550,552]},{"Opt":553},{"And":[[549,554],null]},{"Or":[555]},{"IsIn":3},{"And":[[557],null]},{"IsIn":1},{"Token":60},{"And":[[559,560],null]},{"Or":[558,561]},{"Token":87},{"Call":[150,[[2,563]]]},{"Token":92},{"Token":53},{"And":[[565,566],null]},{"Or":[567]},{"Not":568},{"And":[[569,49],null]},{"Or":[570]},{"Call":[150,[[2,571]]]},{"Token":92},{"Token":53},{"And":[[573,574,49],null]},{"Or":[575]},{"Call":[150,[[2,576]]]},{"And":[[564,572,577],null]},{"Or":[578]},{"Call":[153,[[5,579]]]},{"And":[[562,580],null]},{"Or":[581]},{"Call":[150,[[2,49]]]},{"Call":[152,[[4,583]]]},{"Opt":9},{"And":[[584,585],null]},{"Or":[586]},{"Token":5},{"Token":92},{"And":[[588,589],null]},{"Or":[590]},{"Token":73},{"And":[[592,34],null]},{"Or":[593]},{"Rep":594},{"And":[[50,595],null]},{"Or":[596]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[62],null]},{"And":[[39],null]},{"Or":[608]},{"And":[[120,49],null]},{"Or":[610]},{"Token":67},{"Token":21},{"And":[[613],null]},{"Token":27},{"And":[[615],null]},{"Or":[614,616]},{"And":[[612,617,49],null]},{"Or":[618]},{"Token":81},{"And":[[620],null]},{"Or":[621]},{"Token":37},{"Token":38},{"And":[[623,624],null]},{"Or":[625]},{"Opt":57},{"And":[[49,627],null]},{"Or":[628]},{"Call":[152,[[4,629]]]},{"And":[[630],null]},{"Or":[631]},{"Token":61},{"Call":[150,[[2,49]]]},{"And":[[633,634],null]},{"Or":[635]},{"Token":82},{"And":[[637],null]},{"Or":[638]},{"Token":58},{"And":[[640,75],null]},{"Or":[641]},{"Opt":642},{"And":[[49,643],null]},{"Or":[644]},{"Call":[154,[[6,645]]]},{"And":[[646],null]},{"Or":[647]},{"Opt":10},{"Token":8},{"Call":[150,[[2,61]]]},{"Call":[152,[[4,651]]]},{"Opt":9},{"And":[[649,650,652,653],2]},{"Or":[654]},{"Token":59},{"And":[[63,656],null]},{"Or":[657]},{"Opt":658},{"And":[[659,49],null]},{"Or":[660]},{"Token":23},{"And":[[662,31,49],1]},{"Or":[663]},{"And":[[64],null]},{"And":[[65],null]},{"And":[[69],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[74],null]},{"Token":81},{"And":[[672],null]},{"Or":[673]},{"And":[[66],null]},{"And":[[67],null]},{"Or":[675,676]},{"Opt":677},{"And":[[40,678],null]},{"Or":[679]},{"Call":[150,[[2,63]]]},{"Token":63},{"Token":61},{"Opt":683},{"And":[[682,684],null]},{"Or":[685]},{"Opt":686},{"And":[[681,687],null]},{"Or":[688]},{"Call":[152,[[4,689]]]},{"And":[[690],null]},{"Or":[691]},{"Call":[150,[[2,68]]]},{"Token":63},{"Token":61},{"Opt":695},{"And":[[694,696],null]},{"Or":[697]},{"Opt":698},{"And":[[693,699],null]},{"Or":[700]},{"Call":[151,[[3,701]]]},{"And":[[702],null]},{"Or":[703]},{"Token":59},{"Not":705},{"And":[[69,706],null]},{"Token":92},{"Token":59},{"And":[[708,709,63],2]},{"Or":[707,710]},{"Token":28},{"Opt":712},{"Token":27},{"Opt":714},{"Token":92},{"And":[[713,715,716],null]},{"Or":[717]},{"And":[[79],null]},{"Or":[719]},{"Token":37},{"Token":38},{"And":[[721,722],null]},{"Or":[723]},{"Opt":73},{"And":[[63,725],null]},{"Or":[726]},{"Call":[152,[[4,727]]]},{"And":[[728],null]},{"Or":[729]},{"Token":61},{"Call":[150,[[2,63]]]},{"And":[[731,732],null]},{"Or":[733]},{"Token":77},{"Token":27},{"Opt":736},{"And":[[735,737,63],null]},{"Or":[738]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":742},{"And":[[740,741,743,113],null]},{"Or":[744]},{"IsIn":2},{"Not":77},{"And":[[746,747],null]},{"IsIn":2},{"Not":749},{"And":[[750],null]},{"Or":[748,751]},{"And":[[752,113],null]},{"Or":[753]},{"Token":62},{"Token":92},{"And":[[756],null]},{"Token":89},{"And":[[758],null]},{"Or":[757,759]},{"And":[[755,760],null]},{"Or":[761]},{"Call":[154,[[6,75]]]},{"Token":83},{"Token":5},{"And":[[765,49],null]},{"Or":[766]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[771],null]},{"Token":69},{"And":[[773],null]},{"Token":71},{"And":[[775],null]},{"Or":[772,774,776]},{"Call":[127,[[1,777]]]},{"Token":73},{"And":[[779],null]},{"Token":75},{"And":[[781],null]},{"Or":[780,782]},{"Call":[127,[[1,783]]]},{"ContextualToken":[45,"<<"]},{"And":[[785],null]},{"ContextualToken":[47,">>"]},{"And":[[787],null]},{"Or":[786,788]},{"Call":[127,[[1,789]]]},{"Token":77},{"Token":77},{"Not":792},{"And":[[791,793],null]},{"Or":[794]},{"Call":[127,[[1,795]]]},{"Token":84},{"Call":[127,[[1,797]]]},{"Token":79},{"Token":79},{"Not":800},{"And":[[799,801],null]},{"Or":[802]},{"Call":[127,[[1,803]]]},{"Call":[127,[[1,132]]]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,806]]]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,808]]]},{"Call":[127,[[1,140]]]},{"Token":53},{"And":[[811],null]},{"Token":74},{"And":[[813],null]},{"Token":76},{"And":[[815],null]},{"Token":68},{"And":[[817],null]},{"Token":70},{"And":[[819],null]},{"Token":72},{"And":[[821],null]},{"Token":78},{"And":[[823],null]},{"Token":80},{"And":[[825],null]},{"Token":85},{"And":[[827],null]},{"ContextualToken":[48,">>="]},{"And":[[829],null]},{"ContextualToken":[46,"<<="]},{"And":[[831],null]},{"Or":[812,814,816,818,820,822,824,826,828,830,832]},{"Call":[127,[[1,833]]]},{"And":[[79],null]},{"Token":92},{"And":[[836],null]},{"Token":87},{"And":[[838],null]},{"Token":18},{"And":[[840],null]},{"Token":19},{"And":[[842],null]},{"Token":41},{"And":[[844],null]},{"Token":60},{"And":[[846],null]},{"Token":37},{"And":[[848],null]},{"Token":43},{"And":[[850],null]},{"Token":79},{"And":[[852],null]},{"Token":31},{"And":[[854],null]},{"Token":39},{"And":[[856],null]},{"Token":14},{"And":[[858],null]},{"Token":25},{"And":[[860],null]},{"Token":24},{"And":[[862],null]},{"Token":23},{"And":[[864],null]},{"Token":30},{"And":[[866],null]},{"Token":26},{"And":[[868],null]},{"Token":32},{"And":[[870],null]},{"Token":33},{"And":[[872],null]},{"Token":77},{"And":[[874],null]},{"Token":67},{"And":[[876],null]},{"Token":75},{"And":[[878],null]},{"Token":82},{"And":[[880],null]},{"Token":63},{"And":[[882],null]},{"Token":64},{"And":[[884],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[886],null]},{"Var":0},{"Exit":[2,888]},{"Exit":[0,889]},{"And":[[890],null]},{"Token":89},{"And":[[892],null]},{"Token":90},{"And":[[894],null]},{"Token":91},{"And":[[896],null]},{"Token":86},{"And":[[898],null]},{"Token":88},{"And":[[900],null]},{"Or":[893,895,897,899,901]},{"Token":92},{"Token":82},{"And":[[903,904],null]},{"Or":[905]},{"Not":906},{"Opt":81},{"And":[[907,40,908],null]},{"Or":[909]},{"IsIn":0},{"Not":911},{"Call":[150,[[2,82]]]},{"Token":63},{"Call":[78,[[0,75]]]},{"And":[[914,915],null]},{"Or":[916]},{"Opt":917},{"And":[[913,918],null]},{"Or":[919]},{"Call":[151,[[3,920]]]},{"And":[[912,921],null]},{"Or":[922]},{"Token":92},{"Token":59},{"And":[[925,75],null]},{"Or":[926]},{"Opt":927},{"And":[[924,928],1]},{"Or":[929]},{"Token":37},{"Token":38},{"And":[[931,932],null]},{"Or":[933]},{"Call":[78,[[0,75]]]},{"Opt":85},{"And":[[935,936],null]},{"Or":[937]},{"Call":[152,[[4,938]]]},{"And":[[939],null]},{"Or":[940]},{"Token":61},{"Call":[78,[[0,75]]]},{"Call":[150,[[2,943]]]},{"And":[[942,944],null]},{"Or":[945]},{"Token":58},{"And":[[947,75],null]},{"Token":61},{"Call":[150,[[2,75]]]},{"And":[[949,950],null]},{"Or":[948,951]},{"Opt":952},{"And":[[75,953],null]},{"Or":[954]},{"Call":[78,[[0,955]]]},{"Call":[154,[[6,956]]]},{"And":[[957],null]},{"Or":[958]},{"Token":26},{"Opt":960},{"Token":79},{"Rep":88},{"Token":79},{"Token":51},{"And":[[965,49,91],null]},{"Call":[78,[[0,75]]]},{"And":[[967],null]},{"Or":[966,968]},{"And":[[961,962,963,964,969],null]},{"Or":[970]},{"Token":61},{"And":[[972],null]},{"Token":79},{"Not":974},{"Not":975},{"And":[[976],null]},{"Or":[973,977]},{"And":[[13,978],1]},{"Token":31},{"Opt":75},{"And":[[980,981],null]},{"Or":[982]},{"Token":33},{"And":[[984],null]},{"Token":32},{"And":[[986],null]},{"Or":[985,987]},{"Token":87},{"Opt":989},{"And":[[988,990],null]},{"Or":[991]},{"Token":35},{"Opt":993},{"WithSkip":[93,92]},{"Rep":995},{"Call":[151,[[3,996]]]},{"And":[[994,997],null]},{"Or":[998]},{"Call":[78,[[0,999]]]},{"And":[[1000],null]},{"Or":[1001]},{"And":[[94],null]},{"And":[[96],null]},{"And":[[3],null]},{"And":[[97],null]},{"Token":9},{"And":[[1007],null]},{"Token":58},{"And":[[1009],null]},{"And":[[2],null]},{"And":[[76],null]},{"Token":9},{"Opt":95},{"Token":53},{"And":[[1015,75],1]},{"Or":[1016]},{"Opt":1017},{"Token":58},{"And":[[1013,63,1014,1018,1019],1]},{"Or":[1020]},{"Token":59},{"And":[[1022,49],null]},{"Or":[1023]},{"Token":58},{"And":[[1025],null]},{"Or":[1026]},{"And":[[77],null]},"Eof",{"And":[[1029],null]},{"Token":58},{"And":[[1031],null]},{"Or":[1028,1030,1032]},{"And":[[75,1033],1]},{"Or":[1034]},{"Enter":[2,1035]},{"And":[[1036],null]},{"Or":[1037]},{"Token":14},{"Token":15},{"And":[[91],null]},{"And":[[98],null]},{"Or":[1041,1042]},{"And":[[1040,1043],null]},{"Or":[1044]},{"Opt":1045},{"And":[[1039,100,91,1046],1]},{"Or":[1047]},{"Opt":104},{"Token":25},{"And":[[1049,1050,100,91],2]},{"Or":[1051]},{"Token":9},{"Token":53},{"And":[[1053,63,1054],1]},{"Or":[1055]},{"Opt":1056},{"And":[[1057,101],1]},{"Enter":[0,75]},{"And":[[1059],null]},{"Opt":104},{"Token":24},{"And":[[1061,1062,91],2]},{"Or":[1063]},{"Opt":104},{"Token":23},{"Token":34},{"And":[[1065,1066,63,1067,101,91],2]},{"Or":[1068]},{"Token":87},{"Token":59},{"And":[[1070,1071],null]},{"Token":30},{"Rep":106},{"Call":[151,[[3,1074]]]},{"And":[[1073,101,1075],1]},{"Or":[1076]},{"Token":52},{"Enter":[2,75]},{"Token":61},{"And":[[1080],null]},"Eof",{"And":[[1082],null]},{"And":[[77],null]},{"Or":[1081,1083,1084]},{"And":[[107,1078,1079,1085],1]},{"Or":[1086]},{"Token":79},{"And":[[1088,63],null]},{"Or":[1089]},{"Rep":1090},{"Opt":108},{"And":[[63,1091,1092],null]},{"Token":14},{"And":[[1094,75],null]},{"Or":[1095]},{"And":[[147],null]},{"Or":[1097]},{"And":[[148],null]},{"Or":[1099]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1103},{"And":[[1101,1102,1104,113],null]},{"Or":[1105]},{"And":[[75,1106],null]},{"Or":[1107]},{"IsIn":2},{"Not":77},{"And":[[1109,1110],null]},{"IsIn":2},{"Not":1112},{"And":[[1113],null]},{"Or":[1111,1114]},{"And":[[1115,113],null]},{"Or":[1116]},{"And":[[75,1117],null]},{"Or":[1118]},{"Call":[150,[[2,114]]]},{"Call":[152,[[4,1120]]]},{"Call":[78,[[0,1121]]]},{"And":[[1122],null]},{"And":[[75],null]},{"Or":[1124]},{"Token":62},{"Token":92},{"And":[[1127],null]},{"Token":89},{"And":[[1129],null]},{"Or":[1128,1130]},{"And":[[1126,1131],null]},{"Or":[1132]},{"And":[[75,1133],null]},{"Or":[1134]},{"Call":[154,[[6,75]]]},{"And":[[75,1136],null]},{"Or":[1137]},{"Token":83},{"And":[[75,1139],null]},{"Or":[1140]},{"Token":5},{"And":[[1142,49],null]},{"Or":[1143]},{"And":[[75,1144],null]},{"Or":[1145]},{"And":[[120,75],null]},{"Or":[1147]},{"Token":77},{"Token":87},{"Opt":1150},{"Token":27},{"Opt":1152},{"And":[[1149,1151,1153],null]},{"Token":67},{"And":[[1155,75],null]},{"Or":[1156]},{"Token":75},{"And":[[1158,75],null]},{"Or":[1159]},{"Token":82},{"And":[[1161,75],null]},{"Or":[1162]},{"Token":67},{"And":[[1164],null]},{"Token":69},{"And":[[1166],null]},{"Token":71},{"And":[[1168],null]},{"Or":[1165,1167,1169]},{"Call":[127,[[1,1170]]]},{"And":[[75,1171,75],null]},{"Or":[1172]},{"Token":73},{"And":[[1174],null]},{"Token":75},{"And":[[1176],null]},{"Or":[1175,1177]},{"Call":[127,[[1,1178]]]},{"And":[[75,1179,75],null]},{"Or":[1180]},{"ContextualToken":[45,"<<"]},{"And":[[1182],null]},{"ContextualToken":[47,">>"]},{"And":[[1184],null]},{"Or":[1183,1185]},{"Call":[127,[[1,1186]]]},{"And":[[75,1187,75],null]},{"Or":[1188]},{"IsIn":2},{"Not":77},{"Var":1},{"And":[[1190,1191,1192],null]},{"IsIn":2},{"Not":1194},{"Var":1},{"And":[[1195,1196],null]},{"Token":77},{"Token":77},{"Not":1199},{"And":[[1198,1200],null]},{"Or":[1201]},{"Call":[127,[[1,1202]]]},{"And":[[75,1203,75],null]},{"Or":[1204]},{"Token":84},{"Call":[127,[[1,1206]]]},{"And":[[75,1207,75],null]},{"Or":[1208]},{"Token":79},{"Token":79},{"Not":1211},{"And":[[1210,1212],null]},{"Or":[1213]},{"Call":[127,[[1,1214]]]},{"And":[[75,1215,75],null]},{"Or":[1216]},{"Call":[127,[[1,132]]]},{"And":[[75,1218,75],null]},{"Or":[1219]},{"Token":54},{"And":[[1221],null]},{"Token":55},{"And":[[1223],null]},{"Token":41},{"And":[[1225],null]},{"Token":42},{"And":[[1227],null]},{"Token":57},{"And":[[1229],null]},{"Token":56},{"And":[[1231],null]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,1233]]]},{"And":[[75,1234,75],null]},{"Or":[1235]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,1237]]]},{"And":[[75,1238,75],null]},{"Or":[1239]},{"Call":[127,[[1,140]]]},{"And":[[75,1241,75],null]},{"Or":[1242]},{"And":[[140,75],null]},{"Or":[1244]},{"And":[[75,139],null]},{"Or":[1246]},{"Token":63},{"Not":76},{"And":[[1248,1249],null]},{"Or":[1250]},{"Token":63},{"And":[[1252],null]},{"Token":64},{"And":[[1254],null]},{"Not":76},{"Not":1256},{"Token":39},{"IsIn":0},{"And":[[1258,1259],null]},{"Or":[1260]},{"Not":1261},{"And":[[139,1257,1262],null]},{"Token":53},{"And":[[1264],null]},{"Token":74},{"And":[[1266],null]},{"Token":76},{"And":[[1268],null]},{"Token":68},{"And":[[1270],null]},{"Token":70},{"And":[[1272],null]},{"Token":72},{"And":[[1274],null]},{"Token":78},{"And":[[1276],null]},{"Token":80},{"And":[[1278],null]},{"Token":85},{"And":[[1280],null]},{"ContextualToken":[48,">>="]},{"And":[[1282],null]},{"ContextualToken":[46,"<<="]},{"And":[[1284],null]},{"Or":[1265,1267,1269,1271,1273,1275,1277,1279,1281,1283,1285]},{"Call":[127,[[1,1286]]]},{"And":[[75,1287,75],null]},{"Or":[1288]},{"Token":65},{"And":[[1290,144],null]},{"Or":[1291]},{"Token":65},{"Token":82},{"And":[[1293,1294,144],null]},{"Or":[1295]},{"Call":[150,[[2,146]]]},{"Call":[154,[[6,1297]]]},{"And":[[1298],null]},{"Rep":142},{"And":[[1300],null]},{"Token":92},{"Token":53},{"And":[[1303,75],null]},{"Call":[150,[[2,146]]]},{"Call":[152,[[4,1305]]]},{"And":[[1306],null]},{"Or":[1304,1307]},{"Opt":1308},{"And":[[1302,1309],1]},{"Or":[1310]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1314},{"Rep":149},{"Call":[151,[[3,1316]]]},{"And":[[1312,1313,1315,1317],null]},{"Or":[1318]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1322},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1324,1325,1326],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1328,1329,1330],null]},{"Or":[1327,1331]},{"And":[[1320,1321,1323,1332],null]},{"Or":[1333]},{"Token":37},{"And":[[1335],null]},{"Token":38},{"And":[[1337],null]},{"Token":39},{"And":[[1339],null]},{"Token":40},{"And":[[1341],null]},{"Token":43},{"And":[[1343],null]},{"Token":44},{"And":[[1345],null]},{"Or":[1336,1338,1340,1342,1344,1346]},{"Not":1347},"Any",{"And":[[1348,1349],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1351,1352,1353],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1355,1356,1357],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1359,1360,1361],null]},{"Or":[1350,1354,1358,1362]},{"Var":2},"Eof",{"And":[[1365],null]},{"Token":61},{"And":[[1367],null]},{"Or":[1366,1368]},{"And":[[1364,1369],1]},{"Or":[1370]},{"Rep":1371},{"And":[[1372],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[155,[[7,1374],[8,1375],[9,1376]]]},{"And":[[1377],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[155,[[7,1379],[8,1380],[9,1381]]]},{"And":[[1382],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[155,[[7,1384],[8,1385],[9,1386]]]},{"And":[[1387],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[155,[[7,1389],[8,1390],[9,1391]]]},{"And":[[1392],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[156,[[10,1395],[11,1396]]]},{"Var":9},{"Layer":[1397,1398]},{"Var":8},{"And":[[1394,1399,1400],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[156,[[10,1403],[11,1404]]]},{"Var":11},{"And":[[1402,1405,1406],1]},{"Var":11},{"Not":1408},"Any",{"And":[[1409,1410],null]},{"Or":[1411]},{"And":[[1412],null]},{"Or":[1407,1413]},{"Rep":1414},{"And":[[1415],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":221,"replaceable":false}},{"Pub":{"ty":97,"body":228,"replaceable":false}},{"Pub":{"ty":98,"body":244,"replaceable":false}},{"Or":[246]},{"Pub":{"ty":99,"body":251,"replaceable":false}},{"Or":[257]},{"Pub":{"ty":100,"body":260,"replaceable":false}},{"Pub":{"ty":101,"body":266,"replaceable":false}},{"Pub":{"ty":102,"body":283,"replaceable":false}},{"Pub":{"ty":103,"body":302,"replaceable":false}},{"Pub":{"ty":104,"body":307,"replaceable":false}},{"Pub":{"ty":105,"body":310,"replaceable":false}},{"Pub":{"ty":106,"body":317,"replaceable":false}},{"Pub":{"ty":107,"body":330,"replaceable":false}},{"Pub":{"ty":108,"body":339,"replaceable":false}},{"Pub":{"ty":109,"body":352,"replaceable":false}},{"Pub":{"ty":110,"body":360,"replaceable":false}},{"Pub":{"ty":111,"body":372,"replaceable":false}},{"Or":[373,374,375,376]},{"Or":[378,380,382,384,386,388,390,392,397]},{"Pub":{"ty":112,"body":407,"replaceable":false}},{"Pub":{"ty":113,"body":421,"replaceable":false}},{"Pub":{"ty":114,"body":425,"replaceable":false}},{"Pub":{"ty":115,"body":429,"replaceable":false}},{"Or":[437]},{"Pub":{"ty":116,"body":444,"replaceable":false}},{"Pub":{"ty":117,"body":448,"replaceable":false}},{"Or":[468]},{"Pub":{"ty":118,"body":473,"replaceable":false}},{"Pub":{"ty":119,"body":493,"replaceable":false}},{"Pub":{"ty":120,"body":503,"replaceable":false}},{"Pub":{"ty":121,"body":518,"replaceable":false}},{"Or":[519]},{"Or":[521]},{"Or":[523]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":526,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":530,"replaceable":false}},{"Pub":{"ty":122,"body":535,"replaceable":false}},{"Pub":{"ty":123,"body":542,"replaceable":false}},{"Pub":{"ty":124,"body":556,"replaceable":false}},{"Pub":{"ty":125,"body":582,"replaceable":false}},{"Pub":{"ty":126,"body":587,"replaceable":false}},{"Pub":{"ty":127,"body":591,"replaceable":false}},{"Pub":{"ty":128,"body":597,"replaceable":false}},{"Or":[598,599,600,601,602,603,604,605,606,607]},{"Pub":{"ty":129,"body":609,"replaceable":false}},{"Pub":{"ty":130,"body":611,"replaceable":false}},{"Pub":{"ty":131,"body":619,"replaceable":false}},{"Pub":{"ty":132,"body":622,"replaceable":false}},{"Pub":{"ty":133,"body":626,"replaceable":false}},{"Pub":{"ty":134,"body":632,"replaceable":true}},{"PubReplace":{"ty":135,"body":636}},{"Pub":{"ty":136,"body":639,"replaceable":false}},{"Pub":{"ty":137,"body":648,"replaceable":false}},{"Pub":{"ty":138,"body":655,"replaceable":false}},{"Pub":{"ty":100,"body":661,"replaceable":false}},{"Pub":{"ty":139,"body":664,"replaceable":false}},{"Or":[665,666,667,668,669,670,671]},{"Pub":{"ty":140,"body":674,"replaceable":false}},{"Pub":{"ty":141,"body":680,"replaceable":true}},{"PubReplace":{"ty":142,"body":692}},{"PubReplace":{"ty":143,"body":704}},{"Pub":{"ty":144,"body":711,"replaceable":false}},{"Pub":{"ty":145,"body":718,"replaceable":false}},{"Pub":{"ty":146,"body":720,"replaceable":false}},{"Pub":{"ty":147,"body":724,"replaceable":false}},{"Pub":{"ty":148,"body":730,"replaceable":true}},{"PubReplace":{"ty":149,"body":734}},{"Pub":{"ty":150,"body":739,"replaceable":false}},{"Pratt":{"atoms":[79,80,83,84,86,87,89,90,91,98,99,102,103,105,109,110,138],"prefixes":[{"ty":184,"op":120,"priority":999},{"ty":185,"op":768,"priority":999},{"ty":186,"op":769,"priority":999},{"ty":187,"op":770,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":745,"priority":999,"has_rhs":false},{"ty":178,"op":754,"priority":999,"has_rhs":false},{"ty":180,"op":762,"priority":999,"has_rhs":false},{"ty":181,"op":763,"priority":999,"has_rhs":false},{"ty":182,"op":764,"priority":999,"has_rhs":false},{"ty":183,"op":767,"priority":999,"has_rhs":false},{"ty":188,"op":778,"priority":11,"has_rhs":true},{"ty":189,"op":784,"priority":10,"has_rhs":true},{"ty":190,"op":790,"priority":9,"has_rhs":true},{"ty":191,"op":796,"priority":8,"has_rhs":true},{"ty":192,"op":798,"priority":7,"has_rhs":true},{"ty":193,"op":804,"priority":6,"has_rhs":true},{"ty":194,"op":805,"priority":5,"has_rhs":true},{"ty":195,"op":807,"priority":4,"has_rhs":true},{"ty":196,"op":809,"priority":3,"has_rhs":true},{"ty":197,"op":810,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":834,"priority":1,"has_rhs":true}]}},{"Or":[835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885]},{"Or":[887]},{"Or":[891]},{"Pub":{"ty":152,"body":902,"replaceable":false}},{"Pub":{"ty":153,"body":910,"replaceable":true}},{"PubReplace":{"ty":154,"body":923}},{"Pub":{"ty":155,"body":930,"replaceable":false}},{"Pub":{"ty":156,"body":934,"replaceable":false}},{"Pub":{"ty":157,"body":941,"replaceable":true}},{"PubReplace":{"ty":158,"body":946}},{"Pub":{"ty":159,"body":959,"replaceable":false}},{"Pub":{"ty":160,"body":971,"replaceable":false}},{"Or":[979]},{"Pub":{"ty":161,"body":983,"replaceable":false}},{"Pub":{"ty":162,"body":992,"replaceable":false}},{"Pub":{"ty":163,"body":1002,"replaceable":false}},{"Or":[1003,1004,1005,1006]},{"Or":[1008,1010,1011,1012]},{"Pub":{"ty":164,"body":1021,"replaceable":false}},{"Pub":{"ty":165,"body":1024,"replaceable":false}},{"Pub":{"ty":166,"body":1027,"replaceable":false}},{"Pub":{"ty":167,"body":1038,"replaceable":false}},{"Pub":{"ty":168,"body":1048,"replaceable":false}},{"Pub":{"ty":169,"body":1052,"replaceable":false}},{"Or":[1058]},{"Or":[1060]},{"Pub":{"ty":170,"body":1064,"replaceable":false}},{"Pub":{"ty":171,"body":1069,"replaceable":false}},{"Or":[1072]},{"Pub":{"ty":172,"body":1077,"replaceable":false}},{"Pub":{"ty":173,"body":1087,"replaceable":false}},{"Or":[1093]},{"Pub":{"ty":174,"body":1096,"replaceable":false}},{"Pub":{"ty":175,"body":1098,"replaceable":false}},{"Pub":{"ty":176,"body":1100,"replaceable":false}},{"Pub":{"ty":177,"body":1108,"replaceable":false}},{"Pub":{"ty":178,"body":1119,"replaceable":false}},{"Or":[1123]},{"Pub":{"ty":179,"body":1125,"replaceable":false}},{"Pub":{"ty":180,"body":1135,"replaceable":false}},{"Pub":{"ty":181,"body":1138,"replaceable":false}},{"Pub":{"ty":182,"body":1141,"replaceable":false}},{"Pub":{"ty":183,"body":1146,"replaceable":false}},{"Pub":{"ty":184,"body":1148,"replaceable":false}},{"Or":[1154]},{"Pub":{"ty":185,"body":1157,"replaceable":false}},{"Pub":{"ty":186,"body":1160,"replaceable":false}},{"Pub":{"ty":187,"body":1163,"replaceable":false}},{"Pub":{"ty":188,"body":1173,"replaceable":false}},{"Pub":{"ty":189,"body":1181,"replaceable":false}},{"Pub":{"ty":190,"body":1189,"replaceable":false}},{"Or":[1193,1197]},{"Pub":{"ty":191,"body":1205,"replaceable":false}},{"Pub":{"ty":192,"body":1209,"replaceable":false}},{"Pub":{"ty":193,"body":1217,"replaceable":false}},{"Pub":{"ty":194,"body":1220,"replaceable":false}},{"Or":[1222,1224,1228,1232,1234,1236]},{"Pub":{"ty":195,"body":1240,"replaceable":false}},{"Pub":{"ty":196,"body":1244,"replaceable":false}},{"Pub":{"ty":197,"body":1247,"replaceable":false}},{"Pub":{"ty":197,"body":1249,"replaceable":false}},{"Pub":{"ty":197,"body":1251,"replaceable":false}},{"Pub":{"ty":197,"body":1255,"replaceable":false}},{"Or":[1257,1259]},{"Or":[1267]},{"Pub":{"ty":198,"body":1293,"replaceable":false}},{"Pub":{"ty":199,"body":1296,"replaceable":false}},{"Pub":{"ty":200,"body":1300,"replaceable":false}},{"Or":[1303]},{"Or":[1305]},{"Pub":{"ty":201,"body":1315,"replaceable":false}},{"Pub":{"ty":202,"body":1323,"replaceable":false}},{"Pub":{"ty":203,"body":1338,"replaceable":false}},{"Pub":{"ty":204,"body":1367,"replaceable":false}},{"Or":[1377]},{"Or":[1382]},{"Or":[1387]},{"Or":[1392]},{"Or":[1397]},{"Or":[1405]},{"Or":[1420]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[2,6]]]},{"Call":[151,[[3,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"And":[[216],null]},{"Token":92},{"Opt":48},{"And":[[218,219],1]},{"Or":[217,220]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[222,223,224,225,226],2]},{"Or":[227]},{"Token":21},{"Opt":229},{"Token":35},{"Opt":231},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[91],null]},{"Token":58},{"And":[[240],null]},{"Or":[239,241]},{"And":[[230,232,233,234,235,236,11,237,238,242],4]},{"Or":[243]},{"Token":51},{"And":[[245,49],null]},{"Token":7},{"Token":90},{"Opt":248},{"And":[[247,249],null]},{"Or":[250]},{"Opt":14},{"Call":[150,[[2,12]]]},{"And":[[252,253],null]},{"Or":[254]},{"Call":[152,[[4,255]]]},{"And":[[256],null]},{"Token":59},{"And":[[63,258,49],1]},{"Or":[259]},{"Token":59},{"And":[[261,49],null]},{"Or":[262]},{"Opt":263},{"And":[[63,264],null]},{"Or":[265]},{"And":[[120],null]},{"Token":27},{"And":[[268],null]},{"Or":[267,269]},{"Opt":270},{"Token":18},{"Token":59},{"And":[[273,49],null]},{"Or":[274]},{"Opt":275},{"Token":61},{"And":[[277],null]},"Eof",{"And":[[279],null]},{"Or":[278,280]},{"And":[[271,272,276,281],2]},{"Or":[282]},{"Token":11},{"And":[[284],null]},{"ContextualToken":[4,"union"]},{"And":[[286],null]},{"Or":[285,287]},{"Token":92},{"Opt":31},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,291]]]},{"And":[[292],null]},{"Token":58},{"And":[[294],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,296]]]},{"Token":58},{"And":[[297,298],null]},{"Or":[293,295,299]},{"And":[[288,289,290,300],1]},{"Or":[301]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[303,304,305,49],2]},{"Or":[306]},{"Opt":36},{"And":[[308,49],null]},{"Or":[309]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[2,19]]]},{"Call":[151,[[3,314]]]},{"And":[[311,312,313,315],1]},{"Or":[316]},{"Token":92},{"Token":53},{"And":[[319,75],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,321]]]},{"And":[[322],null]},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,324]]]},{"And":[[325],null]},{"Or":[320,323,326]},{"Opt":327},{"And":[[318,328],1]},{"Or":[329]},{"Token":13},{"Token":92},{"Token":58},{"And":[[333],null]},{"Call":[151,[[3,1]]]},{"And":[[335],null]},{"Or":[334,336]},{"And":[[331,332,337],1]},{"Or":[338]},{"Token":35},{"Opt":340},{"Token":17},{"Opt":31},{"Token":23},{"And":[[344,49],null]},{"Or":[345]},{"Opt":346},{"And":[[49,347],null]},{"Or":[348]},{"Opt":37},{"And":[[341,342,343,349,350,23],2]},{"Or":[351]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,353,354,355,356,357,358,23],3]},{"Or":[359]},{"Opt":36},{"And":[[145,361],null]},{"Or":[362]},{"Inject":[363,24]},{"And":[[364],null]},{"And":[[28],null]},{"Or":[365,366]},{"WithSkip":[25,367]},{"Rep":368},{"Call":[151,[[3,369]]]},{"And":[[370],null]},{"Or":[371]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[377],null]},{"Token":8},{"And":[[379],null]},{"Token":20},{"And":[[381],null]},{"Token":21},{"And":[[383],null]},{"Token":22},{"And":[[385],null]},{"Token":35},{"And":[[387],null]},{"Token":65},{"And":[[389],null]},{"Token":7},{"And":[[391],null]},{"Token":92},{"Token":82},{"And":[[393,394],null]},{"Or":[395]},{"And":[[396],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[401,49],null]},{"Or":[402]},{"Opt":403},{"Token":58},{"And":[[398,399,400,404,405],1]},{"Or":[406]},{"Token":21},{"And":[[408],null]},{"Token":22},{"And":[[410],null]},{"Or":[409,411]},{"Token":92},{"Token":59},{"Token":53},{"And":[[415,75],null]},{"Or":[416]},{"Opt":417},{"Token":58},{"And":[[412,413,414,49,418,419],1]},{"Or":[420]},{"And":[[147],null]},{"Token":58},{"And":[[148,423],null]},{"Or":[422,424]},{"Rep":30},{"Call":[151,[[3,426]]]},{"And":[[10,427],null]},{"Or":[428]},{"Opt":36},{"And":[[145,430],null]},{"Or":[431]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[433,434]},{"Inject":[432,435]},{"And":[[436],null]},{"Call":[150,[[2,35]]]},{"Call":[150,[[2,32]]]},{"And":[[438,439],null]},{"Or":[440]},{"Call":[153,[[5,441]]]},{"And":[[442],null]},{"Or":[443]},{"Token":92},{"Opt":33},{"And":[[445,446],1]},{"Or":[447]},{"Token":59},{"Token":73},{"And":[[450],null]},"Eof",{"And":[[452],null]},{"Token":61},{"And":[[454],null]},{"Token":39},{"And":[[456],null]},{"Token":36},{"And":[[458],null]},{"Or":[455,457,459]},{"Not":460},{"Not":461},{"And":[[462],null]},{"Or":[451,453,463]},{"And":[[34,464],1]},{"Or":[465]},{"Rep":466},{"And":[[449,467],null]},{"Token":87},{"And":[[469],null]},{"And":[[51],null]},{"And":[[62],null]},{"Or":[470,471,472]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[477],null]},"Eof",{"And":[[479],null]},{"Token":61},{"Not":481},{"Not":482},{"And":[[483],null]},{"Or":[478,480,484]},{"And":[[476,485],1]},{"Or":[486]},{"Rep":487},{"And":[[475,488],null]},{"Or":[489]},{"Opt":490},{"And":[[474,491],1]},{"Or":[492]},{"Token":10},{"Token":6},{"And":[[495],null]},{"Token":19},{"And":[[497],null]},{"Or":[496,498]},{"Call":[152,[[4,499]]]},{"Opt":500},{"And":[[494,501],null]},{"Or":[502]},{"Token":36},{"Token":61},{"And":[[505],null]},"Eof",{"And":[[507],null]},{"Token":39},{"Not":509},{"Not":510},{"And":[[511],null]},{"Or":[506,508,512]},{"And":[[49,33,513],null]},{"Or":[514]},{"Rep":515},{"And":[[504,516],1]},{"Or":[517]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[520],null]},{"Enter":[1,41]},{"And":[[522],null]},{"Token":60},{"And":[[524,45],null]},{"Or":[525]},{"Token":60},{"Opt":527},{"And":[[528,45],null]},{"Or":[529]},{"Token":60},{"And":[[531,45],null]},{"Or":[532]},{"And":[[41,533],null]},{"Or":[534]},{"Token":5},{"And":[[49,536,49],null]},{"Or":[537]},{"Call":[153,[[5,538]]]},{"Token":60},{"And":[[539,540,45],null]},{"Or":[541]},{"Token":92},{"And":[[543],null]},{"Token":18},{"And":[[545],null]},{"Token":19},{"And":[[547],null]},{"Or":[544,546,548]},{"And":[[46],null]},{"IsIn":3},{"And":[[551,47],null]},{"Or":[550,552]},{"Opt":553},{"And":[[549,554],null]},{"Or":[555]},{"IsIn":3},{"And":[[557],null]},{"IsIn":1},{"Token":60},{"And":[[559,560],null]},{"Or":[558,561]},{"Token":87},{"Call":[150,[[2,563]]]},{"Token":92},{"Token":53},{"And":[[565,566],null]},{"Or":[567]},{"Not":568},{"And":[[569,49],null]},{"Or":[570]},{"Call":[150,[[2,571]]]},{"Token":92},{"Token":53},{"And":[[573,574,49],null]},{"Or":[575]},{"Call":[150,[[2,576]]]},{"And":[[564,572,577],null]},{"Or":[578]},{"Call":[153,[[5,579]]]},{"And":[[562,580],null]},{"Or":[581]},{"Call":[150,[[2,49]]]},{"Call":[152,[[4,583]]]},{"Opt":9},{"And":[[584,585],null]},{"Or":[586]},{"Token":5},{"Token":92},{"And":[[588,589],null]},{"Or":[590]},{"Token":73},{"And":[[592,34],null]},{"Or":[593]},{"Rep":594},{"And":[[50,595],null]},{"Or":[596]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[62],null]},{"And":[[39],null]},{"Or":[608]},{"And":[[120,49],null]},{"Or":[610]},{"Token":67},{"Token":21},{"And":[[613],null]},{"Token":27},{"And":[[615],null]},{"Or":[614,616]},{"And":[[612,617,49],null]},{"Or":[618]},{"Token":81},{"And":[[620],null]},{"Or":[621]},{"Token":37},{"Token":38},{"And":[[623,624],null]},{"Or":[625]},{"Opt":57},{"And":[[49,627],null]},{"Or":[628]},{"Call":[152,[[4,629]]]},{"And":[[630],null]},{"Or":[631]},{"Token":61},{"Call":[150,[[2,49]]]},{"And":[[633,634],null]},{"Or":[635]},{"Token":82},{"And":[[637],null]},{"Or":[638]},{"Token":58},{"And":[[640,75],null]},{"Or":[641]},{"Opt":642},{"And":[[49,643],null]},{"Or":[644]},{"Call":[154,[[6,645]]]},{"And":[[646],null]},{"Or":[647]},{"Opt":10},{"Token":8},{"Call":[150,[[2,61]]]},{"Call":[152,[[4,651]]]},{"Opt":9},{"And":[[649,650,652,653],2]},{"Or":[654]},{"Token":59},{"And":[[63,656],null]},{"Or":[657]},{"Opt":658},{"And":[[659,49],null]},{"Or":[660]},{"Token":23},{"And":[[662,31,49],1]},{"Or":[663]},{"And":[[64],null]},{"And":[[65],null]},{"And":[[69],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[74],null]},{"Token":81},{"And":[[672],null]},{"Or":[673]},{"And":[[66],null]},{"And":[[67],null]},{"Or":[675,676]},{"Opt":677},{"And":[[40,678],null]},{"Or":[679]},{"Call":[150,[[2,63]]]},{"Token":63},{"Token":61},{"Opt":683},{"And":[[682,684],null]},{"Or":[685]},{"Opt":686},{"And":[[681,687],null]},{"Or":[688]},{"Call":[152,[[4,689]]]},{"And":[[690],null]},{"Or":[691]},{"Call":[150,[[2,68]]]},{"Token":63},{"Token":61},{"Opt":695},{"And":[[694,696],null]},{"Or":[697]},{"Opt":698},{"And":[[693,699],null]},{"Or":[700]},{"Call":[151,[[3,701]]]},{"And":[[702],null]},{"Or":[703]},{"Token":59},{"Not":705},{"And":[[69,706],null]},{"Token":92},{"Token":59},{"And":[[708,709,63],2]},{"Or":[707,710]},{"Token":28},{"Opt":712},{"Token":27},{"Opt":714},{"Token":92},{"And":[[713,715,716],null]},{"Or":[717]},{"And":[[79],null]},{"Or":[719]},{"Token":37},{"Token":38},{"And":[[721,722],null]},{"Or":[723]},{"Opt":73},{"And":[[63,725],null]},{"Or":[726]},{"Call":[152,[[4,727]]]},{"And":[[728],null]},{"Or":[729]},{"Token":61},{"Call":[150,[[2,63]]]},{"And":[[731,732],null]},{"Or":[733]},{"Token":77},{"Token":27},{"Opt":736},{"And":[[735,737,63],null]},{"Or":[738]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":742},{"And":[[740,741,743,113],null]},{"Or":[744]},{"IsIn":2},{"Not":77},{"And":[[746,747],null]},{"IsIn":2},{"Not":749},{"And":[[750],null]},{"Or":[748,751]},{"And":[[752,113],null]},{"Or":[753]},{"Token":62},{"Token":92},{"And":[[756],null]},{"Token":89},{"And":[[758],null]},{"Or":[757,759]},{"And":[[755,760],null]},{"Or":[761]},{"Call":[154,[[6,75]]]},{"Token":83},{"Token":5},{"And":[[765,49],null]},{"Or":[766]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[771],null]},{"Token":69},{"And":[[773],null]},{"Token":71},{"And":[[775],null]},{"Or":[772,774,776]},{"Call":[127,[[1,777]]]},{"Token":73},{"And":[[779],null]},{"Token":75},{"And":[[781],null]},{"Or":[780,782]},{"Call":[127,[[1,783]]]},{"ContextualToken":[45,"<<"]},{"And":[[785],null]},{"ContextualToken":[47,">>"]},{"And":[[787],null]},{"Or":[786,788]},{"Call":[127,[[1,789]]]},{"Token":77},{"Token":77},{"Not":792},{"And":[[791,793],null]},{"Or":[794]},{"Call":[127,[[1,795]]]},{"Token":84},{"Call":[127,[[1,797]]]},{"Token":79},{"Token":79},{"Not":800},{"And":[[799,801],null]},{"Or":[802]},{"Call":[127,[[1,803]]]},{"Call":[127,[[1,132]]]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,806]]]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,808]]]},{"Call":[127,[[1,140]]]},{"Token":53},{"And":[[811],null]},{"Token":74},{"And":[[813],null]},{"Token":76},{"And":[[815],null]},{"Token":68},{"And":[[817],null]},{"Token":70},{"And":[[819],null]},{"Token":72},{"And":[[821],null]},{"Token":78},{"And":[[823],null]},{"Token":80},{"And":[[825],null]},{"Token":85},{"And":[[827],null]},{"ContextualToken":[48,">>="]},{"And":[[829],null]},{"ContextualToken":[46,"<<="]},{"And":[[831],null]},{"Or":[812,814,816,818,820,822,824,826,828,830,832]},{"Call":[127,[[1,833]]]},{"And":[[79],null]},{"Token":92},{"And":[[836],null]},{"Token":87},{"And":[[838],null]},{"Token":18},{"And":[[840],null]},{"Token":19},{"And":[[842],null]},{"Token":41},{"And":[[844],null]},{"Token":60},{"And":[[846],null]},{"Token":37},{"And":[[848],null]},{"Token":43},{"And":[[850],null]},{"Token":79},{"And":[[852],null]},{"Token":31},{"And":[[854],null]},{"Token":39},{"And":[[856],null]},{"Token":14},{"And":[[858],null]},{"Token":25},{"And":[[860],null]},{"Token":24},{"And":[[862],null]},{"Token":23},{"And":[[864],null]},{"Token":30},{"And":[[866],null]},{"Token":26},{"And":[[868],null]},{"Token":32},{"And":[[870],null]},{"Token":33},{"And":[[872],null]},{"Token":77},{"And":[[874],null]},{"Token":67},{"And":[[876],null]},{"Token":75},{"And":[[878],null]},{"Token":82},{"And":[[880],null]},{"Token":63},{"And":[[882],null]},{"Token":64},{"And":[[884],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[886],null]},{"Var":0},{"Exit":[2,888]},{"Exit":[0,889]},{"And":[[890],null]},{"Token":89},{"And":[[892],null]},{"Token":90},{"And":[[894],null]},{"Token":91},{"And":[[896],null]},{"Token":86},{"And":[[898],null]},{"Token":88},{"And":[[900],null]},{"Or":[893,895,897,899,901]},{"Token":92},{"Token":82},{"And":[[903,904],null]},{"Or":[905]},{"Not":906},{"Opt":81},{"And":[[907,40,908],null]},{"Or":[909]},{"IsIn":0},{"Not":911},{"Call":[150,[[2,82]]]},{"Token":63},{"Call":[78,[[0,75]]]},{"And":[[914,915],null]},{"Or":[916]},{"Opt":917},{"And":[[913,918],null]},{"Or":[919]},{"Call":[151,[[3,920]]]},{"And":[[912,921],null]},{"Or":[922]},{"Token":92},{"Token":59},{"And":[[925,75],null]},{"Or":[926]},{"Opt":927},{"And":[[924,928],1]},{"Or":[929]},{"Token":37},{"Token":38},{"And":[[931,932],null]},{"Or":[933]},{"Call":[78,[[0,75]]]},{"Opt":85},{"And":[[935,936],null]},{"Or":[937]},{"Call":[152,[[4,938]]]},{"And":[[939],null]},{"Or":[940]},{"Token":61},{"Call":[78,[[0,75]]]},{"Call":[150,[[2,943]]]},{"And":[[942,944],null]},{"Or":[945]},{"Token":58},{"And":[[947,75],null]},{"Token":61},{"Call":[150,[[2,75]]]},{"And":[[949,950],null]},{"Or":[948,951]},{"Opt":952},{"And":[[75,953],null]},{"Or":[954]},{"Call":[78,[[0,955]]]},{"Call":[154,[[6,956]]]},{"And":[[957],null]},{"Or":[958]},{"Token":26},{"Opt":960},{"Token":79},{"Rep":88},{"Token":79},{"Token":51},{"And":[[965,49,91],null]},{"Call":[78,[[0,75]]]},{"And":[[967],null]},{"Or":[966,968]},{"And":[[961,962,963,964,969],null]},{"Or":[970]},{"Token":61},{"And":[[972],null]},{"Token":79},{"Not":974},{"Not":975},{"And":[[976],null]},{"Or":[973,977]},{"And":[[13,978],1]},{"Token":31},{"Opt":75},{"And":[[980,981],null]},{"Or":[982]},{"Token":33},{"And":[[984],null]},{"Token":32},{"And":[[986],null]},{"Or":[985,987]},{"Token":87},{"Opt":989},{"And":[[988,990],null]},{"Or":[991]},{"Token":35},{"Opt":993},{"WithSkip":[93,92]},{"Rep":995},{"Call":[151,[[3,996]]]},{"And":[[994,997],null]},{"Or":[998]},{"Call":[78,[[0,999]]]},{"And":[[1000],null]},{"Or":[1001]},{"And":[[94],null]},{"And":[[96],null]},{"And":[[3],null]},{"And":[[97],null]},{"Token":9},{"And":[[1007],null]},{"Token":58},{"And":[[1009],null]},{"And":[[2],null]},{"And":[[76],null]},{"Token":9},{"Opt":95},{"Token":53},{"And":[[1015,75],1]},{"Or":[1016]},{"Opt":1017},{"Token":58},{"And":[[1013,63,1014,1018,1019],1]},{"Or":[1020]},{"Token":59},{"And":[[1022,49],null]},{"Or":[1023]},{"Token":58},{"And":[[1025],null]},{"Or":[1026]},{"And":[[77],null]},"Eof",{"And":[[1029],null]},{"Token":58},{"And":[[1031],null]},{"Or":[1028,1030,1032]},{"And":[[75,1033],1]},{"Or":[1034]},{"Enter":[2,1035]},{"And":[[1036],null]},{"Or":[1037]},{"Token":14},{"Token":15},{"And":[[91],null]},{"And":[[98],null]},{"Or":[1041,1042]},{"And":[[1040,1043],null]},{"Or":[1044]},{"Opt":1045},{"And":[[1039,100,91,1046],1]},{"Or":[1047]},{"Opt":104},{"Token":25},{"And":[[1049,1050,100,91],2]},{"Or":[1051]},{"Token":9},{"Token":53},{"And":[[1053,63,1054],1]},{"Or":[1055]},{"Opt":1056},{"And":[[1057,101],1]},{"Enter":[0,75]},{"And":[[1059],null]},{"Opt":104},{"Token":24},{"And":[[1061,1062,91],2]},{"Or":[1063]},{"Opt":104},{"Token":23},{"Token":34},{"And":[[1065,1066,63,1067,101,91],2]},{"Or":[1068]},{"Token":87},{"Token":59},{"And":[[1070,1071],null]},{"Token":30},{"Rep":106},{"Call":[151,[[3,1074]]]},{"And":[[1073,101,1075],1]},{"Or":[1076]},{"Token":52},{"Enter":[2,75]},{"Token":61},{"And":[[1080],null]},"Eof",{"And":[[1082],null]},{"And":[[77],null]},{"Or":[1081,1083,1084]},{"And":[[107,1078,1079,1085],1]},{"Or":[1086]},{"Token":79},{"And":[[1088,63],null]},{"Or":[1089]},{"Rep":1090},{"Opt":108},{"And":[[63,1091,1092],null]},{"Token":14},{"And":[[1094,75],null]},{"Or":[1095]},{"And":[[147],null]},{"Or":[1097]},{"And":[[148],null]},{"Or":[1099]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1103},{"And":[[1101,1102,1104,113],null]},{"Or":[1105]},{"And":[[75,1106],null]},{"Or":[1107]},{"IsIn":2},{"Not":77},{"And":[[1109,1110],null]},{"IsIn":2},{"Not":1112},{"And":[[1113],null]},{"Or":[1111,1114]},{"And":[[1115,113],null]},{"Or":[1116]},{"And":[[75,1117],null]},{"Or":[1118]},{"Call":[150,[[2,114]]]},{"Call":[152,[[4,1120]]]},{"Call":[78,[[0,1121]]]},{"And":[[1122],null]},{"And":[[75],null]},{"Or":[1124]},{"Token":62},{"Token":92},{"And":[[1127],null]},{"Token":89},{"And":[[1129],null]},{"Or":[1128,1130]},{"And":[[1126,1131],null]},{"Or":[1132]},{"And":[[75,1133],null]},{"Or":[1134]},{"Call":[154,[[6,75]]]},{"And":[[75,1136],null]},{"Or":[1137]},{"Token":83},{"And":[[75,1139],null]},{"Or":[1140]},{"Token":5},{"And":[[1142,49],null]},{"Or":[1143]},{"And":[[75,1144],null]},{"Or":[1145]},{"And":[[120,75],null]},{"Or":[1147]},{"Token":77},{"Token":87},{"Opt":1150},{"Token":27},{"Opt":1152},{"And":[[1149,1151,1153],null]},{"Token":67},{"And":[[1155,75],null]},{"Or":[1156]},{"Token":75},{"And":[[1158,75],null]},{"Or":[1159]},{"Token":82},{"And":[[1161,75],null]},{"Or":[1162]},{"Token":67},{"And":[[1164],null]},{"Token":69},{"And":[[1166],null]},{"Token":71},{"And":[[1168],null]},{"Or":[1165,1167,1169]},{"Call":[127,[[1,1170]]]},{"And":[[75,1171,75],null]},{"Or":[1172]},{"Token":73},{"And":[[1174],null]},{"Token":75},{"And":[[1176],null]},{"Or":[1175,1177]},{"Call":[127,[[1,1178]]]},{"And":[[75,1179,75],null]},{"Or":[1180]},{"ContextualToken":[45,"<<"]},{"And":[[1182],null]},{"ContextualToken":[47,">>"]},{"And":[[1184],null]},{"Or":[1183,1185]},{"Call":[127,[[1,1186]]]},{"And":[[75,1187,75],null]},{"Or":[1188]},{"IsIn":2},{"Not":77},{"Var":1},{"And":[[1190,1191,1192],null]},{"IsIn":2},{"Not":1194},{"Var":1},{"And":[[1195,1196],null]},{"Token":77},{"Token":77},{"Not":1199},{"And":[[1198,1200],null]},{"Or":[1201]},{"Call":[127,[[1,1202]]]},{"And":[[75,1203,75],null]},{"Or":[1204]},{"Token":84},{"Call":[127,[[1,1206]]]},{"And":[[75,1207,75],null]},{"Or":[1208]},{"Token":79},{"Token":79},{"Not":1211},{"And":[[1210,1212],null]},{"Or":[1213]},{"Call":[127,[[1,1214]]]},{"And":[[75,1215,75],null]},{"Or":[1216]},{"Call":[127,[[1,132]]]},{"And":[[75,1218,75],null]},{"Or":[1219]},{"Token":54},{"And":[[1221],null]},{"Token":55},{"And":[[1223],null]},{"Token":41},{"Token":57},{"Not":1226},{"And":[[1225,1227],null]},{"Token":42},{"Token":56},{"Not":1230},{"And":[[1229,1231],null]},{"Token":57},{"And":[[1233],null]},{"Token":56},{"And":[[1235],null]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,1237]]]},{"And":[[75,1238,75],null]},{"Or":[1239]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,1241]]]},{"And":[[75,1242,75],null]},{"Or":[1243]},{"Call":[127,[[1,140]]]},{"And":[[75,1245,75],null]},{"Or":[1246]},{"And":[[140,75],null]},{"Or":[1248]},{"And":[[75,139],null]},{"Or":[1250]},{"Token":63},{"Not":76},{"And":[[1252,1253],null]},{"Or":[1254]},{"Token":63},{"And":[[1256],null]},{"Token":64},{"And":[[1258],null]},{"Not":76},{"Not":1260},{"Token":39},{"IsIn":0},{"And":[[1262,1263],null]},{"Or":[1264]},{"Not":1265},{"And":[[139,1261,1266],null]},{"Token":53},{"And":[[1268],null]},{"Token":74},{"And":[[1270],null]},{"Token":76},{"And":[[1272],null]},{"Token":68},{"And":[[1274],null]},{"Token":70},{"And":[[1276],null]},{"Token":72},{"And":[[1278],null]},{"Token":78},{"And":[[1280],null]},{"Token":80},{"And":[[1282],null]},{"Token":85},{"And":[[1284],null]},{"ContextualToken":[48,">>="]},{"And":[[1286],null]},{"ContextualToken":[46,"<<="]},{"And":[[1288],null]},{"Or":[1269,1271,1273,1275,1277,1279,1281,1283,1285,1287,1289]},{"Call":[127,[[1,1290]]]},{"And":[[75,1291,75],null]},{"Or":[1292]},{"Token":65},{"And":[[1294,144],null]},{"Or":[1295]},{"Token":65},{"Token":82},{"And":[[1297,1298,144],null]},{"Or":[1299]},{"Call":[150,[[2,146]]]},{"Call":[154,[[6,1301]]]},{"And":[[1302],null]},{"Rep":142},{"And":[[1304],null]},{"Token":92},{"Token":53},{"And":[[1307,75],null]},{"Call":[150,[[2,146]]]},{"Call":[152,[[4,1309]]]},{"And":[[1310],null]},{"Or":[1308,1311]},{"Opt":1312},{"And":[[1306,1313],1]},{"Or":[1314]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1318},{"Rep":149},{"Call":[151,[[3,1320]]]},{"And":[[1316,1317,1319,1321],null]},{"Or":[1322]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1326},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1328,1329,1330],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1332,1333,1334],null]},{"Or":[1331,1335]},{"And":[[1324,1325,1327,1336],null]},{"Or":[1337]},{"Token":37},{"And":[[1339],null]},{"Token":38},{"And":[[1341],null]},{"Token":39},{"And":[[1343],null]},{"Token":40},{"And":[[1345],null]},{"Token":43},{"And":[[1347],null]},{"Token":44},{"And":[[1349],null]},{"Or":[1340,1342,1344,1346,1348,1350]},{"Not":1351},"Any",{"And":[[1352,1353],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1355,1356,1357],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1359,1360,1361],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1363,1364,1365],null]},{"Or":[1354,1358,1362,1366]},{"Var":2},"Eof",{"And":[[1369],null]},{"Token":61},{"And":[[1371],null]},{"Or":[1370,1372]},{"And":[[1368,1373],1]},{"Or":[1374]},{"Rep":1375},{"And":[[1376],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[155,[[7,1378],[8,1379],[9,1380]]]},{"And":[[1381],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[155,[[7,1383],[8,1384],[9,1385]]]},{"And":[[1386],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[155,[[7,1388],[8,1389],[9,1390]]]},{"And":[[1391],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[155,[[7,1393],[8,1394],[9,1395]]]},{"And":[[1396],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[156,[[10,1399],[11,1400]]]},{"Var":9},{"Layer":[1401,1402]},{"Var":8},{"And":[[1398,1403,1404],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[156,[[10,1407],[11,1408]]]},{"Var":11},{"And":[[1406,1409,1410],1]},{"Var":11},{"Not":1412},"Any",{"And":[[1413,1414],null]},{"Or":[1415]},{"And":[[1416],null]},{"Or":[1411,1417]},{"Rep":1418},{"And":[[1419],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From 0f58ca6b050b0086fce2fd7118289b03e84418ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 10/31] fix: parse references after bitwise operators in Rust

---
 lang/rust/syntax/src/rust.fall | 4 ++--
 lang/rust/syntax/src/rust.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index d2d7fd7..606aceb 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -1055,7 +1055,7 @@ rule binop(op) {
 
 #[bin(8)]
 pub rule bit_and {
-  expr <binop {'&' <not '&'>}> expr
+  expr <binop {<not '&&'> '&'}> expr
 }
 
 #[bin(7)]
@@ -1065,7 +1065,7 @@ pub rule bit_xor {
 
 #[bin(6)]
 pub rule bit_or {
-  expr <binop {'|' <not '|'>}> expr
+  expr <binop {<not '||'> '|'}> expr
 }
 
 #[bin(5)]
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index d4ac131..50768aa 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":221,"replaceable":false}},{"Pub":{"ty":97,"body":228,"replaceable":false}},{"Pub":{"ty":98,"body":244,"replaceable":false}},{"Or":[246]},{"Pub":{"ty":99,"body":251,"replaceable":false}},{"Or":[257]},{"Pub":{"ty":100,"body":260,"replaceable":false}},{"Pub":{"ty":101,"body":266,"replaceable":false}},{"Pub":{"ty":102,"body":283,"replaceable":false}},{"Pub":{"ty":103,"body":302,"replaceable":false}},{"Pub":{"ty":104,"body":307,"replaceable":false}},{"Pub":{"ty":105,"body":310,"replaceable":false}},{"Pub":{"ty":106,"body":317,"replaceable":false}},{"Pub":{"ty":107,"body":330,"replaceable":false}},{"Pub":{"ty":108,"body":339,"replaceable":false}},{"Pub":{"ty":109,"body":352,"replaceable":false}},{"Pub":{"ty":110,"body":360,"replaceable":false}},{"Pub":{"ty":111,"body":372,"replaceable":false}},{"Or":[373,374,375,376]},{"Or":[378,380,382,384,386,388,390,392,397]},{"Pub":{"ty":112,"body":407,"replaceable":false}},{"Pub":{"ty":113,"body":421,"replaceable":false}},{"Pub":{"ty":114,"body":425,"replaceable":false}},{"Pub":{"ty":115,"body":429,"replaceable":false}},{"Or":[437]},{"Pub":{"ty":116,"body":444,"replaceable":false}},{"Pub":{"ty":117,"body":448,"replaceable":false}},{"Or":[468]},{"Pub":{"ty":118,"body":473,"replaceable":false}},{"Pub":{"ty":119,"body":493,"replaceable":false}},{"Pub":{"ty":120,"body":503,"replaceable":false}},{"Pub":{"ty":121,"body":518,"replaceable":false}},{"Or":[519]},{"Or":[521]},{"Or":[523]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":526,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":530,"replaceable":false}},{"Pub":{"ty":122,"body":535,"replaceable":false}},{"Pub":{"ty":123,"body":542,"replaceable":false}},{"Pub":{"ty":124,"body":556,"replaceable":false}},{"Pub":{"ty":125,"body":582,"replaceable":false}},{"Pub":{"ty":126,"body":587,"replaceable":false}},{"Pub":{"ty":127,"body":591,"replaceable":false}},{"Pub":{"ty":128,"body":597,"replaceable":false}},{"Or":[598,599,600,601,602,603,604,605,606,607]},{"Pub":{"ty":129,"body":609,"replaceable":false}},{"Pub":{"ty":130,"body":611,"replaceable":false}},{"Pub":{"ty":131,"body":619,"replaceable":false}},{"Pub":{"ty":132,"body":622,"replaceable":false}},{"Pub":{"ty":133,"body":626,"replaceable":false}},{"Pub":{"ty":134,"body":632,"replaceable":true}},{"PubReplace":{"ty":135,"body":636}},{"Pub":{"ty":136,"body":639,"replaceable":false}},{"Pub":{"ty":137,"body":648,"replaceable":false}},{"Pub":{"ty":138,"body":655,"replaceable":false}},{"Pub":{"ty":100,"body":661,"replaceable":false}},{"Pub":{"ty":139,"body":664,"replaceable":false}},{"Or":[665,666,667,668,669,670,671]},{"Pub":{"ty":140,"body":674,"replaceable":false}},{"Pub":{"ty":141,"body":680,"replaceable":true}},{"PubReplace":{"ty":142,"body":692}},{"PubReplace":{"ty":143,"body":704}},{"Pub":{"ty":144,"body":711,"replaceable":false}},{"Pub":{"ty":145,"body":718,"replaceable":false}},{"Pub":{"ty":146,"body":720,"replaceable":false}},{"Pub":{"ty":147,"body":724,"replaceable":false}},{"Pub":{"ty":148,"body":730,"replaceable":true}},{"PubReplace":{"ty":149,"body":734}},{"Pub":{"ty":150,"body":739,"replaceable":false}},{"Pratt":{"atoms":[79,80,83,84,86,87,89,90,91,98,99,102,103,105,109,110,138],"prefixes":[{"ty":184,"op":120,"priority":999},{"ty":185,"op":768,"priority":999},{"ty":186,"op":769,"priority":999},{"ty":187,"op":770,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":745,"priority":999,"has_rhs":false},{"ty":178,"op":754,"priority":999,"has_rhs":false},{"ty":180,"op":762,"priority":999,"has_rhs":false},{"ty":181,"op":763,"priority":999,"has_rhs":false},{"ty":182,"op":764,"priority":999,"has_rhs":false},{"ty":183,"op":767,"priority":999,"has_rhs":false},{"ty":188,"op":778,"priority":11,"has_rhs":true},{"ty":189,"op":784,"priority":10,"has_rhs":true},{"ty":190,"op":790,"priority":9,"has_rhs":true},{"ty":191,"op":796,"priority":8,"has_rhs":true},{"ty":192,"op":798,"priority":7,"has_rhs":true},{"ty":193,"op":804,"priority":6,"has_rhs":true},{"ty":194,"op":805,"priority":5,"has_rhs":true},{"ty":195,"op":807,"priority":4,"has_rhs":true},{"ty":196,"op":809,"priority":3,"has_rhs":true},{"ty":197,"op":810,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":834,"priority":1,"has_rhs":true}]}},{"Or":[835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885]},{"Or":[887]},{"Or":[891]},{"Pub":{"ty":152,"body":902,"replaceable":false}},{"Pub":{"ty":153,"body":910,"replaceable":true}},{"PubReplace":{"ty":154,"body":923}},{"Pub":{"ty":155,"body":930,"replaceable":false}},{"Pub":{"ty":156,"body":934,"replaceable":false}},{"Pub":{"ty":157,"body":941,"replaceable":true}},{"PubReplace":{"ty":158,"body":946}},{"Pub":{"ty":159,"body":959,"replaceable":false}},{"Pub":{"ty":160,"body":971,"replaceable":false}},{"Or":[979]},{"Pub":{"ty":161,"body":983,"replaceable":false}},{"Pub":{"ty":162,"body":992,"replaceable":false}},{"Pub":{"ty":163,"body":1002,"replaceable":false}},{"Or":[1003,1004,1005,1006]},{"Or":[1008,1010,1011,1012]},{"Pub":{"ty":164,"body":1021,"replaceable":false}},{"Pub":{"ty":165,"body":1024,"replaceable":false}},{"Pub":{"ty":166,"body":1027,"replaceable":false}},{"Pub":{"ty":167,"body":1038,"replaceable":false}},{"Pub":{"ty":168,"body":1048,"replaceable":false}},{"Pub":{"ty":169,"body":1052,"replaceable":false}},{"Or":[1058]},{"Or":[1060]},{"Pub":{"ty":170,"body":1064,"replaceable":false}},{"Pub":{"ty":171,"body":1069,"replaceable":false}},{"Or":[1072]},{"Pub":{"ty":172,"body":1077,"replaceable":false}},{"Pub":{"ty":173,"body":1087,"replaceable":false}},{"Or":[1093]},{"Pub":{"ty":174,"body":1096,"replaceable":false}},{"Pub":{"ty":175,"body":1098,"replaceable":false}},{"Pub":{"ty":176,"body":1100,"replaceable":false}},{"Pub":{"ty":177,"body":1108,"replaceable":false}},{"Pub":{"ty":178,"body":1119,"replaceable":false}},{"Or":[1123]},{"Pub":{"ty":179,"body":1125,"replaceable":false}},{"Pub":{"ty":180,"body":1135,"replaceable":false}},{"Pub":{"ty":181,"body":1138,"replaceable":false}},{"Pub":{"ty":182,"body":1141,"replaceable":false}},{"Pub":{"ty":183,"body":1146,"replaceable":false}},{"Pub":{"ty":184,"body":1148,"replaceable":false}},{"Or":[1154]},{"Pub":{"ty":185,"body":1157,"replaceable":false}},{"Pub":{"ty":186,"body":1160,"replaceable":false}},{"Pub":{"ty":187,"body":1163,"replaceable":false}},{"Pub":{"ty":188,"body":1173,"replaceable":false}},{"Pub":{"ty":189,"body":1181,"replaceable":false}},{"Pub":{"ty":190,"body":1189,"replaceable":false}},{"Or":[1193,1197]},{"Pub":{"ty":191,"body":1205,"replaceable":false}},{"Pub":{"ty":192,"body":1209,"replaceable":false}},{"Pub":{"ty":193,"body":1217,"replaceable":false}},{"Pub":{"ty":194,"body":1220,"replaceable":false}},{"Or":[1222,1224,1228,1232,1234,1236]},{"Pub":{"ty":195,"body":1240,"replaceable":false}},{"Pub":{"ty":196,"body":1244,"replaceable":false}},{"Pub":{"ty":197,"body":1247,"replaceable":false}},{"Pub":{"ty":197,"body":1249,"replaceable":false}},{"Pub":{"ty":197,"body":1251,"replaceable":false}},{"Pub":{"ty":197,"body":1255,"replaceable":false}},{"Or":[1257,1259]},{"Or":[1267]},{"Pub":{"ty":198,"body":1293,"replaceable":false}},{"Pub":{"ty":199,"body":1296,"replaceable":false}},{"Pub":{"ty":200,"body":1300,"replaceable":false}},{"Or":[1303]},{"Or":[1305]},{"Pub":{"ty":201,"body":1315,"replaceable":false}},{"Pub":{"ty":202,"body":1323,"replaceable":false}},{"Pub":{"ty":203,"body":1338,"replaceable":false}},{"Pub":{"ty":204,"body":1367,"replaceable":false}},{"Or":[1377]},{"Or":[1382]},{"Or":[1387]},{"Or":[1392]},{"Or":[1397]},{"Or":[1405]},{"Or":[1420]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[2,6]]]},{"Call":[151,[[3,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"And":[[216],null]},{"Token":92},{"Opt":48},{"And":[[218,219],1]},{"Or":[217,220]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[222,223,224,225,226],2]},{"Or":[227]},{"Token":21},{"Opt":229},{"Token":35},{"Opt":231},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[91],null]},{"Token":58},{"And":[[240],null]},{"Or":[239,241]},{"And":[[230,232,233,234,235,236,11,237,238,242],4]},{"Or":[243]},{"Token":51},{"And":[[245,49],null]},{"Token":7},{"Token":90},{"Opt":248},{"And":[[247,249],null]},{"Or":[250]},{"Opt":14},{"Call":[150,[[2,12]]]},{"And":[[252,253],null]},{"Or":[254]},{"Call":[152,[[4,255]]]},{"And":[[256],null]},{"Token":59},{"And":[[63,258,49],1]},{"Or":[259]},{"Token":59},{"And":[[261,49],null]},{"Or":[262]},{"Opt":263},{"And":[[63,264],null]},{"Or":[265]},{"And":[[120],null]},{"Token":27},{"And":[[268],null]},{"Or":[267,269]},{"Opt":270},{"Token":18},{"Token":59},{"And":[[273,49],null]},{"Or":[274]},{"Opt":275},{"Token":61},{"And":[[277],null]},"Eof",{"And":[[279],null]},{"Or":[278,280]},{"And":[[271,272,276,281],2]},{"Or":[282]},{"Token":11},{"And":[[284],null]},{"ContextualToken":[4,"union"]},{"And":[[286],null]},{"Or":[285,287]},{"Token":92},{"Opt":31},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,291]]]},{"And":[[292],null]},{"Token":58},{"And":[[294],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,296]]]},{"Token":58},{"And":[[297,298],null]},{"Or":[293,295,299]},{"And":[[288,289,290,300],1]},{"Or":[301]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[303,304,305,49],2]},{"Or":[306]},{"Opt":36},{"And":[[308,49],null]},{"Or":[309]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[2,19]]]},{"Call":[151,[[3,314]]]},{"And":[[311,312,313,315],1]},{"Or":[316]},{"Token":92},{"Token":53},{"And":[[319,75],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,321]]]},{"And":[[322],null]},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,324]]]},{"And":[[325],null]},{"Or":[320,323,326]},{"Opt":327},{"And":[[318,328],1]},{"Or":[329]},{"Token":13},{"Token":92},{"Token":58},{"And":[[333],null]},{"Call":[151,[[3,1]]]},{"And":[[335],null]},{"Or":[334,336]},{"And":[[331,332,337],1]},{"Or":[338]},{"Token":35},{"Opt":340},{"Token":17},{"Opt":31},{"Token":23},{"And":[[344,49],null]},{"Or":[345]},{"Opt":346},{"And":[[49,347],null]},{"Or":[348]},{"Opt":37},{"And":[[341,342,343,349,350,23],2]},{"Or":[351]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,353,354,355,356,357,358,23],3]},{"Or":[359]},{"Opt":36},{"And":[[145,361],null]},{"Or":[362]},{"Inject":[363,24]},{"And":[[364],null]},{"And":[[28],null]},{"Or":[365,366]},{"WithSkip":[25,367]},{"Rep":368},{"Call":[151,[[3,369]]]},{"And":[[370],null]},{"Or":[371]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[377],null]},{"Token":8},{"And":[[379],null]},{"Token":20},{"And":[[381],null]},{"Token":21},{"And":[[383],null]},{"Token":22},{"And":[[385],null]},{"Token":35},{"And":[[387],null]},{"Token":65},{"And":[[389],null]},{"Token":7},{"And":[[391],null]},{"Token":92},{"Token":82},{"And":[[393,394],null]},{"Or":[395]},{"And":[[396],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[401,49],null]},{"Or":[402]},{"Opt":403},{"Token":58},{"And":[[398,399,400,404,405],1]},{"Or":[406]},{"Token":21},{"And":[[408],null]},{"Token":22},{"And":[[410],null]},{"Or":[409,411]},{"Token":92},{"Token":59},{"Token":53},{"And":[[415,75],null]},{"Or":[416]},{"Opt":417},{"Token":58},{"And":[[412,413,414,49,418,419],1]},{"Or":[420]},{"And":[[147],null]},{"Token":58},{"And":[[148,423],null]},{"Or":[422,424]},{"Rep":30},{"Call":[151,[[3,426]]]},{"And":[[10,427],null]},{"Or":[428]},{"Opt":36},{"And":[[145,430],null]},{"Or":[431]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[433,434]},{"Inject":[432,435]},{"And":[[436],null]},{"Call":[150,[[2,35]]]},{"Call":[150,[[2,32]]]},{"And":[[438,439],null]},{"Or":[440]},{"Call":[153,[[5,441]]]},{"And":[[442],null]},{"Or":[443]},{"Token":92},{"Opt":33},{"And":[[445,446],1]},{"Or":[447]},{"Token":59},{"Token":73},{"And":[[450],null]},"Eof",{"And":[[452],null]},{"Token":61},{"And":[[454],null]},{"Token":39},{"And":[[456],null]},{"Token":36},{"And":[[458],null]},{"Or":[455,457,459]},{"Not":460},{"Not":461},{"And":[[462],null]},{"Or":[451,453,463]},{"And":[[34,464],1]},{"Or":[465]},{"Rep":466},{"And":[[449,467],null]},{"Token":87},{"And":[[469],null]},{"And":[[51],null]},{"And":[[62],null]},{"Or":[470,471,472]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[477],null]},"Eof",{"And":[[479],null]},{"Token":61},{"Not":481},{"Not":482},{"And":[[483],null]},{"Or":[478,480,484]},{"And":[[476,485],1]},{"Or":[486]},{"Rep":487},{"And":[[475,488],null]},{"Or":[489]},{"Opt":490},{"And":[[474,491],1]},{"Or":[492]},{"Token":10},{"Token":6},{"And":[[495],null]},{"Token":19},{"And":[[497],null]},{"Or":[496,498]},{"Call":[152,[[4,499]]]},{"Opt":500},{"And":[[494,501],null]},{"Or":[502]},{"Token":36},{"Token":61},{"And":[[505],null]},"Eof",{"And":[[507],null]},{"Token":39},{"Not":509},{"Not":510},{"And":[[511],null]},{"Or":[506,508,512]},{"And":[[49,33,513],null]},{"Or":[514]},{"Rep":515},{"And":[[504,516],1]},{"Or":[517]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[520],null]},{"Enter":[1,41]},{"And":[[522],null]},{"Token":60},{"And":[[524,45],null]},{"Or":[525]},{"Token":60},{"Opt":527},{"And":[[528,45],null]},{"Or":[529]},{"Token":60},{"And":[[531,45],null]},{"Or":[532]},{"And":[[41,533],null]},{"Or":[534]},{"Token":5},{"And":[[49,536,49],null]},{"Or":[537]},{"Call":[153,[[5,538]]]},{"Token":60},{"And":[[539,540,45],null]},{"Or":[541]},{"Token":92},{"And":[[543],null]},{"Token":18},{"And":[[545],null]},{"Token":19},{"And":[[547],null]},{"Or":[544,546,548]},{"And":[[46],null]},{"IsIn":3},{"And":[[551,47],null]},{"Or":[550,552]},{"Opt":553},{"And":[[549,554],null]},{"Or":[555]},{"IsIn":3},{"And":[[557],null]},{"IsIn":1},{"Token":60},{"And":[[559,560],null]},{"Or":[558,561]},{"Token":87},{"Call":[150,[[2,563]]]},{"Token":92},{"Token":53},{"And":[[565,566],null]},{"Or":[567]},{"Not":568},{"And":[[569,49],null]},{"Or":[570]},{"Call":[150,[[2,571]]]},{"Token":92},{"Token":53},{"And":[[573,574,49],null]},{"Or":[575]},{"Call":[150,[[2,576]]]},{"And":[[564,572,577],null]},{"Or":[578]},{"Call":[153,[[5,579]]]},{"And":[[562,580],null]},{"Or":[581]},{"Call":[150,[[2,49]]]},{"Call":[152,[[4,583]]]},{"Opt":9},{"And":[[584,585],null]},{"Or":[586]},{"Token":5},{"Token":92},{"And":[[588,589],null]},{"Or":[590]},{"Token":73},{"And":[[592,34],null]},{"Or":[593]},{"Rep":594},{"And":[[50,595],null]},{"Or":[596]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[62],null]},{"And":[[39],null]},{"Or":[608]},{"And":[[120,49],null]},{"Or":[610]},{"Token":67},{"Token":21},{"And":[[613],null]},{"Token":27},{"And":[[615],null]},{"Or":[614,616]},{"And":[[612,617,49],null]},{"Or":[618]},{"Token":81},{"And":[[620],null]},{"Or":[621]},{"Token":37},{"Token":38},{"And":[[623,624],null]},{"Or":[625]},{"Opt":57},{"And":[[49,627],null]},{"Or":[628]},{"Call":[152,[[4,629]]]},{"And":[[630],null]},{"Or":[631]},{"Token":61},{"Call":[150,[[2,49]]]},{"And":[[633,634],null]},{"Or":[635]},{"Token":82},{"And":[[637],null]},{"Or":[638]},{"Token":58},{"And":[[640,75],null]},{"Or":[641]},{"Opt":642},{"And":[[49,643],null]},{"Or":[644]},{"Call":[154,[[6,645]]]},{"And":[[646],null]},{"Or":[647]},{"Opt":10},{"Token":8},{"Call":[150,[[2,61]]]},{"Call":[152,[[4,651]]]},{"Opt":9},{"And":[[649,650,652,653],2]},{"Or":[654]},{"Token":59},{"And":[[63,656],null]},{"Or":[657]},{"Opt":658},{"And":[[659,49],null]},{"Or":[660]},{"Token":23},{"And":[[662,31,49],1]},{"Or":[663]},{"And":[[64],null]},{"And":[[65],null]},{"And":[[69],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[74],null]},{"Token":81},{"And":[[672],null]},{"Or":[673]},{"And":[[66],null]},{"And":[[67],null]},{"Or":[675,676]},{"Opt":677},{"And":[[40,678],null]},{"Or":[679]},{"Call":[150,[[2,63]]]},{"Token":63},{"Token":61},{"Opt":683},{"And":[[682,684],null]},{"Or":[685]},{"Opt":686},{"And":[[681,687],null]},{"Or":[688]},{"Call":[152,[[4,689]]]},{"And":[[690],null]},{"Or":[691]},{"Call":[150,[[2,68]]]},{"Token":63},{"Token":61},{"Opt":695},{"And":[[694,696],null]},{"Or":[697]},{"Opt":698},{"And":[[693,699],null]},{"Or":[700]},{"Call":[151,[[3,701]]]},{"And":[[702],null]},{"Or":[703]},{"Token":59},{"Not":705},{"And":[[69,706],null]},{"Token":92},{"Token":59},{"And":[[708,709,63],2]},{"Or":[707,710]},{"Token":28},{"Opt":712},{"Token":27},{"Opt":714},{"Token":92},{"And":[[713,715,716],null]},{"Or":[717]},{"And":[[79],null]},{"Or":[719]},{"Token":37},{"Token":38},{"And":[[721,722],null]},{"Or":[723]},{"Opt":73},{"And":[[63,725],null]},{"Or":[726]},{"Call":[152,[[4,727]]]},{"And":[[728],null]},{"Or":[729]},{"Token":61},{"Call":[150,[[2,63]]]},{"And":[[731,732],null]},{"Or":[733]},{"Token":77},{"Token":27},{"Opt":736},{"And":[[735,737,63],null]},{"Or":[738]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":742},{"And":[[740,741,743,113],null]},{"Or":[744]},{"IsIn":2},{"Not":77},{"And":[[746,747],null]},{"IsIn":2},{"Not":749},{"And":[[750],null]},{"Or":[748,751]},{"And":[[752,113],null]},{"Or":[753]},{"Token":62},{"Token":92},{"And":[[756],null]},{"Token":89},{"And":[[758],null]},{"Or":[757,759]},{"And":[[755,760],null]},{"Or":[761]},{"Call":[154,[[6,75]]]},{"Token":83},{"Token":5},{"And":[[765,49],null]},{"Or":[766]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[771],null]},{"Token":69},{"And":[[773],null]},{"Token":71},{"And":[[775],null]},{"Or":[772,774,776]},{"Call":[127,[[1,777]]]},{"Token":73},{"And":[[779],null]},{"Token":75},{"And":[[781],null]},{"Or":[780,782]},{"Call":[127,[[1,783]]]},{"ContextualToken":[45,"<<"]},{"And":[[785],null]},{"ContextualToken":[47,">>"]},{"And":[[787],null]},{"Or":[786,788]},{"Call":[127,[[1,789]]]},{"Token":77},{"Token":77},{"Not":792},{"And":[[791,793],null]},{"Or":[794]},{"Call":[127,[[1,795]]]},{"Token":84},{"Call":[127,[[1,797]]]},{"Token":79},{"Token":79},{"Not":800},{"And":[[799,801],null]},{"Or":[802]},{"Call":[127,[[1,803]]]},{"Call":[127,[[1,132]]]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,806]]]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,808]]]},{"Call":[127,[[1,140]]]},{"Token":53},{"And":[[811],null]},{"Token":74},{"And":[[813],null]},{"Token":76},{"And":[[815],null]},{"Token":68},{"And":[[817],null]},{"Token":70},{"And":[[819],null]},{"Token":72},{"And":[[821],null]},{"Token":78},{"And":[[823],null]},{"Token":80},{"And":[[825],null]},{"Token":85},{"And":[[827],null]},{"ContextualToken":[48,">>="]},{"And":[[829],null]},{"ContextualToken":[46,"<<="]},{"And":[[831],null]},{"Or":[812,814,816,818,820,822,824,826,828,830,832]},{"Call":[127,[[1,833]]]},{"And":[[79],null]},{"Token":92},{"And":[[836],null]},{"Token":87},{"And":[[838],null]},{"Token":18},{"And":[[840],null]},{"Token":19},{"And":[[842],null]},{"Token":41},{"And":[[844],null]},{"Token":60},{"And":[[846],null]},{"Token":37},{"And":[[848],null]},{"Token":43},{"And":[[850],null]},{"Token":79},{"And":[[852],null]},{"Token":31},{"And":[[854],null]},{"Token":39},{"And":[[856],null]},{"Token":14},{"And":[[858],null]},{"Token":25},{"And":[[860],null]},{"Token":24},{"And":[[862],null]},{"Token":23},{"And":[[864],null]},{"Token":30},{"And":[[866],null]},{"Token":26},{"And":[[868],null]},{"Token":32},{"And":[[870],null]},{"Token":33},{"And":[[872],null]},{"Token":77},{"And":[[874],null]},{"Token":67},{"And":[[876],null]},{"Token":75},{"And":[[878],null]},{"Token":82},{"And":[[880],null]},{"Token":63},{"And":[[882],null]},{"Token":64},{"And":[[884],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[886],null]},{"Var":0},{"Exit":[2,888]},{"Exit":[0,889]},{"And":[[890],null]},{"Token":89},{"And":[[892],null]},{"Token":90},{"And":[[894],null]},{"Token":91},{"And":[[896],null]},{"Token":86},{"And":[[898],null]},{"Token":88},{"And":[[900],null]},{"Or":[893,895,897,899,901]},{"Token":92},{"Token":82},{"And":[[903,904],null]},{"Or":[905]},{"Not":906},{"Opt":81},{"And":[[907,40,908],null]},{"Or":[909]},{"IsIn":0},{"Not":911},{"Call":[150,[[2,82]]]},{"Token":63},{"Call":[78,[[0,75]]]},{"And":[[914,915],null]},{"Or":[916]},{"Opt":917},{"And":[[913,918],null]},{"Or":[919]},{"Call":[151,[[3,920]]]},{"And":[[912,921],null]},{"Or":[922]},{"Token":92},{"Token":59},{"And":[[925,75],null]},{"Or":[926]},{"Opt":927},{"And":[[924,928],1]},{"Or":[929]},{"Token":37},{"Token":38},{"And":[[931,932],null]},{"Or":[933]},{"Call":[78,[[0,75]]]},{"Opt":85},{"And":[[935,936],null]},{"Or":[937]},{"Call":[152,[[4,938]]]},{"And":[[939],null]},{"Or":[940]},{"Token":61},{"Call":[78,[[0,75]]]},{"Call":[150,[[2,943]]]},{"And":[[942,944],null]},{"Or":[945]},{"Token":58},{"And":[[947,75],null]},{"Token":61},{"Call":[150,[[2,75]]]},{"And":[[949,950],null]},{"Or":[948,951]},{"Opt":952},{"And":[[75,953],null]},{"Or":[954]},{"Call":[78,[[0,955]]]},{"Call":[154,[[6,956]]]},{"And":[[957],null]},{"Or":[958]},{"Token":26},{"Opt":960},{"Token":79},{"Rep":88},{"Token":79},{"Token":51},{"And":[[965,49,91],null]},{"Call":[78,[[0,75]]]},{"And":[[967],null]},{"Or":[966,968]},{"And":[[961,962,963,964,969],null]},{"Or":[970]},{"Token":61},{"And":[[972],null]},{"Token":79},{"Not":974},{"Not":975},{"And":[[976],null]},{"Or":[973,977]},{"And":[[13,978],1]},{"Token":31},{"Opt":75},{"And":[[980,981],null]},{"Or":[982]},{"Token":33},{"And":[[984],null]},{"Token":32},{"And":[[986],null]},{"Or":[985,987]},{"Token":87},{"Opt":989},{"And":[[988,990],null]},{"Or":[991]},{"Token":35},{"Opt":993},{"WithSkip":[93,92]},{"Rep":995},{"Call":[151,[[3,996]]]},{"And":[[994,997],null]},{"Or":[998]},{"Call":[78,[[0,999]]]},{"And":[[1000],null]},{"Or":[1001]},{"And":[[94],null]},{"And":[[96],null]},{"And":[[3],null]},{"And":[[97],null]},{"Token":9},{"And":[[1007],null]},{"Token":58},{"And":[[1009],null]},{"And":[[2],null]},{"And":[[76],null]},{"Token":9},{"Opt":95},{"Token":53},{"And":[[1015,75],1]},{"Or":[1016]},{"Opt":1017},{"Token":58},{"And":[[1013,63,1014,1018,1019],1]},{"Or":[1020]},{"Token":59},{"And":[[1022,49],null]},{"Or":[1023]},{"Token":58},{"And":[[1025],null]},{"Or":[1026]},{"And":[[77],null]},"Eof",{"And":[[1029],null]},{"Token":58},{"And":[[1031],null]},{"Or":[1028,1030,1032]},{"And":[[75,1033],1]},{"Or":[1034]},{"Enter":[2,1035]},{"And":[[1036],null]},{"Or":[1037]},{"Token":14},{"Token":15},{"And":[[91],null]},{"And":[[98],null]},{"Or":[1041,1042]},{"And":[[1040,1043],null]},{"Or":[1044]},{"Opt":1045},{"And":[[1039,100,91,1046],1]},{"Or":[1047]},{"Opt":104},{"Token":25},{"And":[[1049,1050,100,91],2]},{"Or":[1051]},{"Token":9},{"Token":53},{"And":[[1053,63,1054],1]},{"Or":[1055]},{"Opt":1056},{"And":[[1057,101],1]},{"Enter":[0,75]},{"And":[[1059],null]},{"Opt":104},{"Token":24},{"And":[[1061,1062,91],2]},{"Or":[1063]},{"Opt":104},{"Token":23},{"Token":34},{"And":[[1065,1066,63,1067,101,91],2]},{"Or":[1068]},{"Token":87},{"Token":59},{"And":[[1070,1071],null]},{"Token":30},{"Rep":106},{"Call":[151,[[3,1074]]]},{"And":[[1073,101,1075],1]},{"Or":[1076]},{"Token":52},{"Enter":[2,75]},{"Token":61},{"And":[[1080],null]},"Eof",{"And":[[1082],null]},{"And":[[77],null]},{"Or":[1081,1083,1084]},{"And":[[107,1078,1079,1085],1]},{"Or":[1086]},{"Token":79},{"And":[[1088,63],null]},{"Or":[1089]},{"Rep":1090},{"Opt":108},{"And":[[63,1091,1092],null]},{"Token":14},{"And":[[1094,75],null]},{"Or":[1095]},{"And":[[147],null]},{"Or":[1097]},{"And":[[148],null]},{"Or":[1099]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1103},{"And":[[1101,1102,1104,113],null]},{"Or":[1105]},{"And":[[75,1106],null]},{"Or":[1107]},{"IsIn":2},{"Not":77},{"And":[[1109,1110],null]},{"IsIn":2},{"Not":1112},{"And":[[1113],null]},{"Or":[1111,1114]},{"And":[[1115,113],null]},{"Or":[1116]},{"And":[[75,1117],null]},{"Or":[1118]},{"Call":[150,[[2,114]]]},{"Call":[152,[[4,1120]]]},{"Call":[78,[[0,1121]]]},{"And":[[1122],null]},{"And":[[75],null]},{"Or":[1124]},{"Token":62},{"Token":92},{"And":[[1127],null]},{"Token":89},{"And":[[1129],null]},{"Or":[1128,1130]},{"And":[[1126,1131],null]},{"Or":[1132]},{"And":[[75,1133],null]},{"Or":[1134]},{"Call":[154,[[6,75]]]},{"And":[[75,1136],null]},{"Or":[1137]},{"Token":83},{"And":[[75,1139],null]},{"Or":[1140]},{"Token":5},{"And":[[1142,49],null]},{"Or":[1143]},{"And":[[75,1144],null]},{"Or":[1145]},{"And":[[120,75],null]},{"Or":[1147]},{"Token":77},{"Token":87},{"Opt":1150},{"Token":27},{"Opt":1152},{"And":[[1149,1151,1153],null]},{"Token":67},{"And":[[1155,75],null]},{"Or":[1156]},{"Token":75},{"And":[[1158,75],null]},{"Or":[1159]},{"Token":82},{"And":[[1161,75],null]},{"Or":[1162]},{"Token":67},{"And":[[1164],null]},{"Token":69},{"And":[[1166],null]},{"Token":71},{"And":[[1168],null]},{"Or":[1165,1167,1169]},{"Call":[127,[[1,1170]]]},{"And":[[75,1171,75],null]},{"Or":[1172]},{"Token":73},{"And":[[1174],null]},{"Token":75},{"And":[[1176],null]},{"Or":[1175,1177]},{"Call":[127,[[1,1178]]]},{"And":[[75,1179,75],null]},{"Or":[1180]},{"ContextualToken":[45,"<<"]},{"And":[[1182],null]},{"ContextualToken":[47,">>"]},{"And":[[1184],null]},{"Or":[1183,1185]},{"Call":[127,[[1,1186]]]},{"And":[[75,1187,75],null]},{"Or":[1188]},{"IsIn":2},{"Not":77},{"Var":1},{"And":[[1190,1191,1192],null]},{"IsIn":2},{"Not":1194},{"Var":1},{"And":[[1195,1196],null]},{"Token":77},{"Token":77},{"Not":1199},{"And":[[1198,1200],null]},{"Or":[1201]},{"Call":[127,[[1,1202]]]},{"And":[[75,1203,75],null]},{"Or":[1204]},{"Token":84},{"Call":[127,[[1,1206]]]},{"And":[[75,1207,75],null]},{"Or":[1208]},{"Token":79},{"Token":79},{"Not":1211},{"And":[[1210,1212],null]},{"Or":[1213]},{"Call":[127,[[1,1214]]]},{"And":[[75,1215,75],null]},{"Or":[1216]},{"Call":[127,[[1,132]]]},{"And":[[75,1218,75],null]},{"Or":[1219]},{"Token":54},{"And":[[1221],null]},{"Token":55},{"And":[[1223],null]},{"Token":41},{"Token":57},{"Not":1226},{"And":[[1225,1227],null]},{"Token":42},{"Token":56},{"Not":1230},{"And":[[1229,1231],null]},{"Token":57},{"And":[[1233],null]},{"Token":56},{"And":[[1235],null]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,1237]]]},{"And":[[75,1238,75],null]},{"Or":[1239]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,1241]]]},{"And":[[75,1242,75],null]},{"Or":[1243]},{"Call":[127,[[1,140]]]},{"And":[[75,1245,75],null]},{"Or":[1246]},{"And":[[140,75],null]},{"Or":[1248]},{"And":[[75,139],null]},{"Or":[1250]},{"Token":63},{"Not":76},{"And":[[1252,1253],null]},{"Or":[1254]},{"Token":63},{"And":[[1256],null]},{"Token":64},{"And":[[1258],null]},{"Not":76},{"Not":1260},{"Token":39},{"IsIn":0},{"And":[[1262,1263],null]},{"Or":[1264]},{"Not":1265},{"And":[[139,1261,1266],null]},{"Token":53},{"And":[[1268],null]},{"Token":74},{"And":[[1270],null]},{"Token":76},{"And":[[1272],null]},{"Token":68},{"And":[[1274],null]},{"Token":70},{"And":[[1276],null]},{"Token":72},{"And":[[1278],null]},{"Token":78},{"And":[[1280],null]},{"Token":80},{"And":[[1282],null]},{"Token":85},{"And":[[1284],null]},{"ContextualToken":[48,">>="]},{"And":[[1286],null]},{"ContextualToken":[46,"<<="]},{"And":[[1288],null]},{"Or":[1269,1271,1273,1275,1277,1279,1281,1283,1285,1287,1289]},{"Call":[127,[[1,1290]]]},{"And":[[75,1291,75],null]},{"Or":[1292]},{"Token":65},{"And":[[1294,144],null]},{"Or":[1295]},{"Token":65},{"Token":82},{"And":[[1297,1298,144],null]},{"Or":[1299]},{"Call":[150,[[2,146]]]},{"Call":[154,[[6,1301]]]},{"And":[[1302],null]},{"Rep":142},{"And":[[1304],null]},{"Token":92},{"Token":53},{"And":[[1307,75],null]},{"Call":[150,[[2,146]]]},{"Call":[152,[[4,1309]]]},{"And":[[1310],null]},{"Or":[1308,1311]},{"Opt":1312},{"And":[[1306,1313],1]},{"Or":[1314]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1318},{"Rep":149},{"Call":[151,[[3,1320]]]},{"And":[[1316,1317,1319,1321],null]},{"Or":[1322]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1326},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1328,1329,1330],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1332,1333,1334],null]},{"Or":[1331,1335]},{"And":[[1324,1325,1327,1336],null]},{"Or":[1337]},{"Token":37},{"And":[[1339],null]},{"Token":38},{"And":[[1341],null]},{"Token":39},{"And":[[1343],null]},{"Token":40},{"And":[[1345],null]},{"Token":43},{"And":[[1347],null]},{"Token":44},{"And":[[1349],null]},{"Or":[1340,1342,1344,1346,1348,1350]},{"Not":1351},"Any",{"And":[[1352,1353],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1355,1356,1357],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1359,1360,1361],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1363,1364,1365],null]},{"Or":[1354,1358,1362,1366]},{"Var":2},"Eof",{"And":[[1369],null]},{"Token":61},{"And":[[1371],null]},{"Or":[1370,1372]},{"And":[[1368,1373],1]},{"Or":[1374]},{"Rep":1375},{"And":[[1376],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[155,[[7,1378],[8,1379],[9,1380]]]},{"And":[[1381],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[155,[[7,1383],[8,1384],[9,1385]]]},{"And":[[1386],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[155,[[7,1388],[8,1389],[9,1390]]]},{"And":[[1391],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[155,[[7,1393],[8,1394],[9,1395]]]},{"And":[[1396],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[156,[[10,1399],[11,1400]]]},{"Var":9},{"Layer":[1401,1402]},{"Var":8},{"And":[[1398,1403,1404],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[156,[[10,1407],[11,1408]]]},{"Var":11},{"And":[[1406,1409,1410],1]},{"Var":11},{"Not":1412},"Any",{"And":[[1413,1414],null]},{"Or":[1415]},{"And":[[1416],null]},{"Or":[1411,1417]},{"Rep":1418},{"And":[[1419],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":221,"replaceable":false}},{"Pub":{"ty":97,"body":228,"replaceable":false}},{"Pub":{"ty":98,"body":244,"replaceable":false}},{"Or":[246]},{"Pub":{"ty":99,"body":251,"replaceable":false}},{"Or":[257]},{"Pub":{"ty":100,"body":260,"replaceable":false}},{"Pub":{"ty":101,"body":266,"replaceable":false}},{"Pub":{"ty":102,"body":283,"replaceable":false}},{"Pub":{"ty":103,"body":302,"replaceable":false}},{"Pub":{"ty":104,"body":307,"replaceable":false}},{"Pub":{"ty":105,"body":310,"replaceable":false}},{"Pub":{"ty":106,"body":317,"replaceable":false}},{"Pub":{"ty":107,"body":330,"replaceable":false}},{"Pub":{"ty":108,"body":339,"replaceable":false}},{"Pub":{"ty":109,"body":352,"replaceable":false}},{"Pub":{"ty":110,"body":360,"replaceable":false}},{"Pub":{"ty":111,"body":372,"replaceable":false}},{"Or":[373,374,375,376]},{"Or":[378,380,382,384,386,388,390,392,397]},{"Pub":{"ty":112,"body":407,"replaceable":false}},{"Pub":{"ty":113,"body":421,"replaceable":false}},{"Pub":{"ty":114,"body":425,"replaceable":false}},{"Pub":{"ty":115,"body":429,"replaceable":false}},{"Or":[437]},{"Pub":{"ty":116,"body":444,"replaceable":false}},{"Pub":{"ty":117,"body":448,"replaceable":false}},{"Or":[468]},{"Pub":{"ty":118,"body":473,"replaceable":false}},{"Pub":{"ty":119,"body":493,"replaceable":false}},{"Pub":{"ty":120,"body":503,"replaceable":false}},{"Pub":{"ty":121,"body":518,"replaceable":false}},{"Or":[519]},{"Or":[521]},{"Or":[523]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":526,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":530,"replaceable":false}},{"Pub":{"ty":122,"body":535,"replaceable":false}},{"Pub":{"ty":123,"body":542,"replaceable":false}},{"Pub":{"ty":124,"body":556,"replaceable":false}},{"Pub":{"ty":125,"body":582,"replaceable":false}},{"Pub":{"ty":126,"body":587,"replaceable":false}},{"Pub":{"ty":127,"body":591,"replaceable":false}},{"Pub":{"ty":128,"body":597,"replaceable":false}},{"Or":[598,599,600,601,602,603,604,605,606,607]},{"Pub":{"ty":129,"body":609,"replaceable":false}},{"Pub":{"ty":130,"body":611,"replaceable":false}},{"Pub":{"ty":131,"body":619,"replaceable":false}},{"Pub":{"ty":132,"body":622,"replaceable":false}},{"Pub":{"ty":133,"body":626,"replaceable":false}},{"Pub":{"ty":134,"body":632,"replaceable":true}},{"PubReplace":{"ty":135,"body":636}},{"Pub":{"ty":136,"body":639,"replaceable":false}},{"Pub":{"ty":137,"body":648,"replaceable":false}},{"Pub":{"ty":138,"body":655,"replaceable":false}},{"Pub":{"ty":100,"body":661,"replaceable":false}},{"Pub":{"ty":139,"body":664,"replaceable":false}},{"Or":[665,666,667,668,669,670,671]},{"Pub":{"ty":140,"body":674,"replaceable":false}},{"Pub":{"ty":141,"body":680,"replaceable":true}},{"PubReplace":{"ty":142,"body":692}},{"PubReplace":{"ty":143,"body":704}},{"Pub":{"ty":144,"body":711,"replaceable":false}},{"Pub":{"ty":145,"body":718,"replaceable":false}},{"Pub":{"ty":146,"body":720,"replaceable":false}},{"Pub":{"ty":147,"body":724,"replaceable":false}},{"Pub":{"ty":148,"body":730,"replaceable":true}},{"PubReplace":{"ty":149,"body":734}},{"Pub":{"ty":150,"body":739,"replaceable":false}},{"Pratt":{"atoms":[79,80,83,84,86,87,89,90,91,98,99,102,103,105,109,110,138],"prefixes":[{"ty":184,"op":120,"priority":999},{"ty":185,"op":768,"priority":999},{"ty":186,"op":769,"priority":999},{"ty":187,"op":770,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":745,"priority":999,"has_rhs":false},{"ty":178,"op":754,"priority":999,"has_rhs":false},{"ty":180,"op":762,"priority":999,"has_rhs":false},{"ty":181,"op":763,"priority":999,"has_rhs":false},{"ty":182,"op":764,"priority":999,"has_rhs":false},{"ty":183,"op":767,"priority":999,"has_rhs":false},{"ty":188,"op":778,"priority":11,"has_rhs":true},{"ty":189,"op":784,"priority":10,"has_rhs":true},{"ty":190,"op":790,"priority":9,"has_rhs":true},{"ty":191,"op":796,"priority":8,"has_rhs":true},{"ty":192,"op":798,"priority":7,"has_rhs":true},{"ty":193,"op":804,"priority":6,"has_rhs":true},{"ty":194,"op":805,"priority":5,"has_rhs":true},{"ty":195,"op":807,"priority":4,"has_rhs":true},{"ty":196,"op":809,"priority":3,"has_rhs":true},{"ty":197,"op":810,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":834,"priority":1,"has_rhs":true}]}},{"Or":[835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885]},{"Or":[887]},{"Or":[891]},{"Pub":{"ty":152,"body":902,"replaceable":false}},{"Pub":{"ty":153,"body":910,"replaceable":true}},{"PubReplace":{"ty":154,"body":923}},{"Pub":{"ty":155,"body":930,"replaceable":false}},{"Pub":{"ty":156,"body":934,"replaceable":false}},{"Pub":{"ty":157,"body":941,"replaceable":true}},{"PubReplace":{"ty":158,"body":946}},{"Pub":{"ty":159,"body":959,"replaceable":false}},{"Pub":{"ty":160,"body":971,"replaceable":false}},{"Or":[979]},{"Pub":{"ty":161,"body":983,"replaceable":false}},{"Pub":{"ty":162,"body":992,"replaceable":false}},{"Pub":{"ty":163,"body":1002,"replaceable":false}},{"Or":[1003,1004,1005,1006]},{"Or":[1008,1010,1011,1012]},{"Pub":{"ty":164,"body":1021,"replaceable":false}},{"Pub":{"ty":165,"body":1024,"replaceable":false}},{"Pub":{"ty":166,"body":1027,"replaceable":false}},{"Pub":{"ty":167,"body":1038,"replaceable":false}},{"Pub":{"ty":168,"body":1048,"replaceable":false}},{"Pub":{"ty":169,"body":1052,"replaceable":false}},{"Or":[1058]},{"Or":[1060]},{"Pub":{"ty":170,"body":1064,"replaceable":false}},{"Pub":{"ty":171,"body":1069,"replaceable":false}},{"Or":[1072]},{"Pub":{"ty":172,"body":1077,"replaceable":false}},{"Pub":{"ty":173,"body":1087,"replaceable":false}},{"Or":[1093]},{"Pub":{"ty":174,"body":1096,"replaceable":false}},{"Pub":{"ty":175,"body":1098,"replaceable":false}},{"Pub":{"ty":176,"body":1100,"replaceable":false}},{"Pub":{"ty":177,"body":1108,"replaceable":false}},{"Pub":{"ty":178,"body":1119,"replaceable":false}},{"Or":[1123]},{"Pub":{"ty":179,"body":1125,"replaceable":false}},{"Pub":{"ty":180,"body":1135,"replaceable":false}},{"Pub":{"ty":181,"body":1138,"replaceable":false}},{"Pub":{"ty":182,"body":1141,"replaceable":false}},{"Pub":{"ty":183,"body":1146,"replaceable":false}},{"Pub":{"ty":184,"body":1148,"replaceable":false}},{"Or":[1154]},{"Pub":{"ty":185,"body":1157,"replaceable":false}},{"Pub":{"ty":186,"body":1160,"replaceable":false}},{"Pub":{"ty":187,"body":1163,"replaceable":false}},{"Pub":{"ty":188,"body":1173,"replaceable":false}},{"Pub":{"ty":189,"body":1181,"replaceable":false}},{"Pub":{"ty":190,"body":1189,"replaceable":false}},{"Or":[1193,1197]},{"Pub":{"ty":191,"body":1205,"replaceable":false}},{"Pub":{"ty":192,"body":1209,"replaceable":false}},{"Pub":{"ty":193,"body":1217,"replaceable":false}},{"Pub":{"ty":194,"body":1220,"replaceable":false}},{"Or":[1222,1224,1228,1232,1234,1236]},{"Pub":{"ty":195,"body":1240,"replaceable":false}},{"Pub":{"ty":196,"body":1244,"replaceable":false}},{"Pub":{"ty":197,"body":1247,"replaceable":false}},{"Pub":{"ty":197,"body":1249,"replaceable":false}},{"Pub":{"ty":197,"body":1251,"replaceable":false}},{"Pub":{"ty":197,"body":1255,"replaceable":false}},{"Or":[1257,1259]},{"Or":[1267]},{"Pub":{"ty":198,"body":1293,"replaceable":false}},{"Pub":{"ty":199,"body":1296,"replaceable":false}},{"Pub":{"ty":200,"body":1300,"replaceable":false}},{"Or":[1303]},{"Or":[1305]},{"Pub":{"ty":201,"body":1315,"replaceable":false}},{"Pub":{"ty":202,"body":1323,"replaceable":false}},{"Pub":{"ty":203,"body":1338,"replaceable":false}},{"Pub":{"ty":204,"body":1367,"replaceable":false}},{"Or":[1377]},{"Or":[1382]},{"Or":[1387]},{"Or":[1392]},{"Or":[1397]},{"Or":[1405]},{"Or":[1420]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[2,6]]]},{"Call":[151,[[3,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"And":[[216],null]},{"Token":92},{"Opt":48},{"And":[[218,219],1]},{"Or":[217,220]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[222,223,224,225,226],2]},{"Or":[227]},{"Token":21},{"Opt":229},{"Token":35},{"Opt":231},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[91],null]},{"Token":58},{"And":[[240],null]},{"Or":[239,241]},{"And":[[230,232,233,234,235,236,11,237,238,242],4]},{"Or":[243]},{"Token":51},{"And":[[245,49],null]},{"Token":7},{"Token":90},{"Opt":248},{"And":[[247,249],null]},{"Or":[250]},{"Opt":14},{"Call":[150,[[2,12]]]},{"And":[[252,253],null]},{"Or":[254]},{"Call":[152,[[4,255]]]},{"And":[[256],null]},{"Token":59},{"And":[[63,258,49],1]},{"Or":[259]},{"Token":59},{"And":[[261,49],null]},{"Or":[262]},{"Opt":263},{"And":[[63,264],null]},{"Or":[265]},{"And":[[120],null]},{"Token":27},{"And":[[268],null]},{"Or":[267,269]},{"Opt":270},{"Token":18},{"Token":59},{"And":[[273,49],null]},{"Or":[274]},{"Opt":275},{"Token":61},{"And":[[277],null]},"Eof",{"And":[[279],null]},{"Or":[278,280]},{"And":[[271,272,276,281],2]},{"Or":[282]},{"Token":11},{"And":[[284],null]},{"ContextualToken":[4,"union"]},{"And":[[286],null]},{"Or":[285,287]},{"Token":92},{"Opt":31},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,291]]]},{"And":[[292],null]},{"Token":58},{"And":[[294],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,296]]]},{"Token":58},{"And":[[297,298],null]},{"Or":[293,295,299]},{"And":[[288,289,290,300],1]},{"Or":[301]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[303,304,305,49],2]},{"Or":[306]},{"Opt":36},{"And":[[308,49],null]},{"Or":[309]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[2,19]]]},{"Call":[151,[[3,314]]]},{"And":[[311,312,313,315],1]},{"Or":[316]},{"Token":92},{"Token":53},{"And":[[319,75],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,321]]]},{"And":[[322],null]},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,324]]]},{"And":[[325],null]},{"Or":[320,323,326]},{"Opt":327},{"And":[[318,328],1]},{"Or":[329]},{"Token":13},{"Token":92},{"Token":58},{"And":[[333],null]},{"Call":[151,[[3,1]]]},{"And":[[335],null]},{"Or":[334,336]},{"And":[[331,332,337],1]},{"Or":[338]},{"Token":35},{"Opt":340},{"Token":17},{"Opt":31},{"Token":23},{"And":[[344,49],null]},{"Or":[345]},{"Opt":346},{"And":[[49,347],null]},{"Or":[348]},{"Opt":37},{"And":[[341,342,343,349,350,23],2]},{"Or":[351]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,353,354,355,356,357,358,23],3]},{"Or":[359]},{"Opt":36},{"And":[[145,361],null]},{"Or":[362]},{"Inject":[363,24]},{"And":[[364],null]},{"And":[[28],null]},{"Or":[365,366]},{"WithSkip":[25,367]},{"Rep":368},{"Call":[151,[[3,369]]]},{"And":[[370],null]},{"Or":[371]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[377],null]},{"Token":8},{"And":[[379],null]},{"Token":20},{"And":[[381],null]},{"Token":21},{"And":[[383],null]},{"Token":22},{"And":[[385],null]},{"Token":35},{"And":[[387],null]},{"Token":65},{"And":[[389],null]},{"Token":7},{"And":[[391],null]},{"Token":92},{"Token":82},{"And":[[393,394],null]},{"Or":[395]},{"And":[[396],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[401,49],null]},{"Or":[402]},{"Opt":403},{"Token":58},{"And":[[398,399,400,404,405],1]},{"Or":[406]},{"Token":21},{"And":[[408],null]},{"Token":22},{"And":[[410],null]},{"Or":[409,411]},{"Token":92},{"Token":59},{"Token":53},{"And":[[415,75],null]},{"Or":[416]},{"Opt":417},{"Token":58},{"And":[[412,413,414,49,418,419],1]},{"Or":[420]},{"And":[[147],null]},{"Token":58},{"And":[[148,423],null]},{"Or":[422,424]},{"Rep":30},{"Call":[151,[[3,426]]]},{"And":[[10,427],null]},{"Or":[428]},{"Opt":36},{"And":[[145,430],null]},{"Or":[431]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[433,434]},{"Inject":[432,435]},{"And":[[436],null]},{"Call":[150,[[2,35]]]},{"Call":[150,[[2,32]]]},{"And":[[438,439],null]},{"Or":[440]},{"Call":[153,[[5,441]]]},{"And":[[442],null]},{"Or":[443]},{"Token":92},{"Opt":33},{"And":[[445,446],1]},{"Or":[447]},{"Token":59},{"Token":73},{"And":[[450],null]},"Eof",{"And":[[452],null]},{"Token":61},{"And":[[454],null]},{"Token":39},{"And":[[456],null]},{"Token":36},{"And":[[458],null]},{"Or":[455,457,459]},{"Not":460},{"Not":461},{"And":[[462],null]},{"Or":[451,453,463]},{"And":[[34,464],1]},{"Or":[465]},{"Rep":466},{"And":[[449,467],null]},{"Token":87},{"And":[[469],null]},{"And":[[51],null]},{"And":[[62],null]},{"Or":[470,471,472]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[477],null]},"Eof",{"And":[[479],null]},{"Token":61},{"Not":481},{"Not":482},{"And":[[483],null]},{"Or":[478,480,484]},{"And":[[476,485],1]},{"Or":[486]},{"Rep":487},{"And":[[475,488],null]},{"Or":[489]},{"Opt":490},{"And":[[474,491],1]},{"Or":[492]},{"Token":10},{"Token":6},{"And":[[495],null]},{"Token":19},{"And":[[497],null]},{"Or":[496,498]},{"Call":[152,[[4,499]]]},{"Opt":500},{"And":[[494,501],null]},{"Or":[502]},{"Token":36},{"Token":61},{"And":[[505],null]},"Eof",{"And":[[507],null]},{"Token":39},{"Not":509},{"Not":510},{"And":[[511],null]},{"Or":[506,508,512]},{"And":[[49,33,513],null]},{"Or":[514]},{"Rep":515},{"And":[[504,516],1]},{"Or":[517]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[520],null]},{"Enter":[1,41]},{"And":[[522],null]},{"Token":60},{"And":[[524,45],null]},{"Or":[525]},{"Token":60},{"Opt":527},{"And":[[528,45],null]},{"Or":[529]},{"Token":60},{"And":[[531,45],null]},{"Or":[532]},{"And":[[41,533],null]},{"Or":[534]},{"Token":5},{"And":[[49,536,49],null]},{"Or":[537]},{"Call":[153,[[5,538]]]},{"Token":60},{"And":[[539,540,45],null]},{"Or":[541]},{"Token":92},{"And":[[543],null]},{"Token":18},{"And":[[545],null]},{"Token":19},{"And":[[547],null]},{"Or":[544,546,548]},{"And":[[46],null]},{"IsIn":3},{"And":[[551,47],null]},{"Or":[550,552]},{"Opt":553},{"And":[[549,554],null]},{"Or":[555]},{"IsIn":3},{"And":[[557],null]},{"IsIn":1},{"Token":60},{"And":[[559,560],null]},{"Or":[558,561]},{"Token":87},{"Call":[150,[[2,563]]]},{"Token":92},{"Token":53},{"And":[[565,566],null]},{"Or":[567]},{"Not":568},{"And":[[569,49],null]},{"Or":[570]},{"Call":[150,[[2,571]]]},{"Token":92},{"Token":53},{"And":[[573,574,49],null]},{"Or":[575]},{"Call":[150,[[2,576]]]},{"And":[[564,572,577],null]},{"Or":[578]},{"Call":[153,[[5,579]]]},{"And":[[562,580],null]},{"Or":[581]},{"Call":[150,[[2,49]]]},{"Call":[152,[[4,583]]]},{"Opt":9},{"And":[[584,585],null]},{"Or":[586]},{"Token":5},{"Token":92},{"And":[[588,589],null]},{"Or":[590]},{"Token":73},{"And":[[592,34],null]},{"Or":[593]},{"Rep":594},{"And":[[50,595],null]},{"Or":[596]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[62],null]},{"And":[[39],null]},{"Or":[608]},{"And":[[120,49],null]},{"Or":[610]},{"Token":67},{"Token":21},{"And":[[613],null]},{"Token":27},{"And":[[615],null]},{"Or":[614,616]},{"And":[[612,617,49],null]},{"Or":[618]},{"Token":81},{"And":[[620],null]},{"Or":[621]},{"Token":37},{"Token":38},{"And":[[623,624],null]},{"Or":[625]},{"Opt":57},{"And":[[49,627],null]},{"Or":[628]},{"Call":[152,[[4,629]]]},{"And":[[630],null]},{"Or":[631]},{"Token":61},{"Call":[150,[[2,49]]]},{"And":[[633,634],null]},{"Or":[635]},{"Token":82},{"And":[[637],null]},{"Or":[638]},{"Token":58},{"And":[[640,75],null]},{"Or":[641]},{"Opt":642},{"And":[[49,643],null]},{"Or":[644]},{"Call":[154,[[6,645]]]},{"And":[[646],null]},{"Or":[647]},{"Opt":10},{"Token":8},{"Call":[150,[[2,61]]]},{"Call":[152,[[4,651]]]},{"Opt":9},{"And":[[649,650,652,653],2]},{"Or":[654]},{"Token":59},{"And":[[63,656],null]},{"Or":[657]},{"Opt":658},{"And":[[659,49],null]},{"Or":[660]},{"Token":23},{"And":[[662,31,49],1]},{"Or":[663]},{"And":[[64],null]},{"And":[[65],null]},{"And":[[69],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[74],null]},{"Token":81},{"And":[[672],null]},{"Or":[673]},{"And":[[66],null]},{"And":[[67],null]},{"Or":[675,676]},{"Opt":677},{"And":[[40,678],null]},{"Or":[679]},{"Call":[150,[[2,63]]]},{"Token":63},{"Token":61},{"Opt":683},{"And":[[682,684],null]},{"Or":[685]},{"Opt":686},{"And":[[681,687],null]},{"Or":[688]},{"Call":[152,[[4,689]]]},{"And":[[690],null]},{"Or":[691]},{"Call":[150,[[2,68]]]},{"Token":63},{"Token":61},{"Opt":695},{"And":[[694,696],null]},{"Or":[697]},{"Opt":698},{"And":[[693,699],null]},{"Or":[700]},{"Call":[151,[[3,701]]]},{"And":[[702],null]},{"Or":[703]},{"Token":59},{"Not":705},{"And":[[69,706],null]},{"Token":92},{"Token":59},{"And":[[708,709,63],2]},{"Or":[707,710]},{"Token":28},{"Opt":712},{"Token":27},{"Opt":714},{"Token":92},{"And":[[713,715,716],null]},{"Or":[717]},{"And":[[79],null]},{"Or":[719]},{"Token":37},{"Token":38},{"And":[[721,722],null]},{"Or":[723]},{"Opt":73},{"And":[[63,725],null]},{"Or":[726]},{"Call":[152,[[4,727]]]},{"And":[[728],null]},{"Or":[729]},{"Token":61},{"Call":[150,[[2,63]]]},{"And":[[731,732],null]},{"Or":[733]},{"Token":77},{"Token":27},{"Opt":736},{"And":[[735,737,63],null]},{"Or":[738]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":742},{"And":[[740,741,743,113],null]},{"Or":[744]},{"IsIn":2},{"Not":77},{"And":[[746,747],null]},{"IsIn":2},{"Not":749},{"And":[[750],null]},{"Or":[748,751]},{"And":[[752,113],null]},{"Or":[753]},{"Token":62},{"Token":92},{"And":[[756],null]},{"Token":89},{"And":[[758],null]},{"Or":[757,759]},{"And":[[755,760],null]},{"Or":[761]},{"Call":[154,[[6,75]]]},{"Token":83},{"Token":5},{"And":[[765,49],null]},{"Or":[766]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[771],null]},{"Token":69},{"And":[[773],null]},{"Token":71},{"And":[[775],null]},{"Or":[772,774,776]},{"Call":[127,[[1,777]]]},{"Token":73},{"And":[[779],null]},{"Token":75},{"And":[[781],null]},{"Or":[780,782]},{"Call":[127,[[1,783]]]},{"ContextualToken":[45,"<<"]},{"And":[[785],null]},{"ContextualToken":[47,">>"]},{"And":[[787],null]},{"Or":[786,788]},{"Call":[127,[[1,789]]]},{"ContextualToken":[49,"&&"]},{"Not":791},{"Token":77},{"And":[[792,793],null]},{"Or":[794]},{"Call":[127,[[1,795]]]},{"Token":84},{"Call":[127,[[1,797]]]},{"ContextualToken":[50,"||"]},{"Not":799},{"Token":79},{"And":[[800,801],null]},{"Or":[802]},{"Call":[127,[[1,803]]]},{"Call":[127,[[1,132]]]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,806]]]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,808]]]},{"Call":[127,[[1,140]]]},{"Token":53},{"And":[[811],null]},{"Token":74},{"And":[[813],null]},{"Token":76},{"And":[[815],null]},{"Token":68},{"And":[[817],null]},{"Token":70},{"And":[[819],null]},{"Token":72},{"And":[[821],null]},{"Token":78},{"And":[[823],null]},{"Token":80},{"And":[[825],null]},{"Token":85},{"And":[[827],null]},{"ContextualToken":[48,">>="]},{"And":[[829],null]},{"ContextualToken":[46,"<<="]},{"And":[[831],null]},{"Or":[812,814,816,818,820,822,824,826,828,830,832]},{"Call":[127,[[1,833]]]},{"And":[[79],null]},{"Token":92},{"And":[[836],null]},{"Token":87},{"And":[[838],null]},{"Token":18},{"And":[[840],null]},{"Token":19},{"And":[[842],null]},{"Token":41},{"And":[[844],null]},{"Token":60},{"And":[[846],null]},{"Token":37},{"And":[[848],null]},{"Token":43},{"And":[[850],null]},{"Token":79},{"And":[[852],null]},{"Token":31},{"And":[[854],null]},{"Token":39},{"And":[[856],null]},{"Token":14},{"And":[[858],null]},{"Token":25},{"And":[[860],null]},{"Token":24},{"And":[[862],null]},{"Token":23},{"And":[[864],null]},{"Token":30},{"And":[[866],null]},{"Token":26},{"And":[[868],null]},{"Token":32},{"And":[[870],null]},{"Token":33},{"And":[[872],null]},{"Token":77},{"And":[[874],null]},{"Token":67},{"And":[[876],null]},{"Token":75},{"And":[[878],null]},{"Token":82},{"And":[[880],null]},{"Token":63},{"And":[[882],null]},{"Token":64},{"And":[[884],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[886],null]},{"Var":0},{"Exit":[2,888]},{"Exit":[0,889]},{"And":[[890],null]},{"Token":89},{"And":[[892],null]},{"Token":90},{"And":[[894],null]},{"Token":91},{"And":[[896],null]},{"Token":86},{"And":[[898],null]},{"Token":88},{"And":[[900],null]},{"Or":[893,895,897,899,901]},{"Token":92},{"Token":82},{"And":[[903,904],null]},{"Or":[905]},{"Not":906},{"Opt":81},{"And":[[907,40,908],null]},{"Or":[909]},{"IsIn":0},{"Not":911},{"Call":[150,[[2,82]]]},{"Token":63},{"Call":[78,[[0,75]]]},{"And":[[914,915],null]},{"Or":[916]},{"Opt":917},{"And":[[913,918],null]},{"Or":[919]},{"Call":[151,[[3,920]]]},{"And":[[912,921],null]},{"Or":[922]},{"Token":92},{"Token":59},{"And":[[925,75],null]},{"Or":[926]},{"Opt":927},{"And":[[924,928],1]},{"Or":[929]},{"Token":37},{"Token":38},{"And":[[931,932],null]},{"Or":[933]},{"Call":[78,[[0,75]]]},{"Opt":85},{"And":[[935,936],null]},{"Or":[937]},{"Call":[152,[[4,938]]]},{"And":[[939],null]},{"Or":[940]},{"Token":61},{"Call":[78,[[0,75]]]},{"Call":[150,[[2,943]]]},{"And":[[942,944],null]},{"Or":[945]},{"Token":58},{"And":[[947,75],null]},{"Token":61},{"Call":[150,[[2,75]]]},{"And":[[949,950],null]},{"Or":[948,951]},{"Opt":952},{"And":[[75,953],null]},{"Or":[954]},{"Call":[78,[[0,955]]]},{"Call":[154,[[6,956]]]},{"And":[[957],null]},{"Or":[958]},{"Token":26},{"Opt":960},{"Token":79},{"Rep":88},{"Token":79},{"Token":51},{"And":[[965,49,91],null]},{"Call":[78,[[0,75]]]},{"And":[[967],null]},{"Or":[966,968]},{"And":[[961,962,963,964,969],null]},{"Or":[970]},{"Token":61},{"And":[[972],null]},{"Token":79},{"Not":974},{"Not":975},{"And":[[976],null]},{"Or":[973,977]},{"And":[[13,978],1]},{"Token":31},{"Opt":75},{"And":[[980,981],null]},{"Or":[982]},{"Token":33},{"And":[[984],null]},{"Token":32},{"And":[[986],null]},{"Or":[985,987]},{"Token":87},{"Opt":989},{"And":[[988,990],null]},{"Or":[991]},{"Token":35},{"Opt":993},{"WithSkip":[93,92]},{"Rep":995},{"Call":[151,[[3,996]]]},{"And":[[994,997],null]},{"Or":[998]},{"Call":[78,[[0,999]]]},{"And":[[1000],null]},{"Or":[1001]},{"And":[[94],null]},{"And":[[96],null]},{"And":[[3],null]},{"And":[[97],null]},{"Token":9},{"And":[[1007],null]},{"Token":58},{"And":[[1009],null]},{"And":[[2],null]},{"And":[[76],null]},{"Token":9},{"Opt":95},{"Token":53},{"And":[[1015,75],1]},{"Or":[1016]},{"Opt":1017},{"Token":58},{"And":[[1013,63,1014,1018,1019],1]},{"Or":[1020]},{"Token":59},{"And":[[1022,49],null]},{"Or":[1023]},{"Token":58},{"And":[[1025],null]},{"Or":[1026]},{"And":[[77],null]},"Eof",{"And":[[1029],null]},{"Token":58},{"And":[[1031],null]},{"Or":[1028,1030,1032]},{"And":[[75,1033],1]},{"Or":[1034]},{"Enter":[2,1035]},{"And":[[1036],null]},{"Or":[1037]},{"Token":14},{"Token":15},{"And":[[91],null]},{"And":[[98],null]},{"Or":[1041,1042]},{"And":[[1040,1043],null]},{"Or":[1044]},{"Opt":1045},{"And":[[1039,100,91,1046],1]},{"Or":[1047]},{"Opt":104},{"Token":25},{"And":[[1049,1050,100,91],2]},{"Or":[1051]},{"Token":9},{"Token":53},{"And":[[1053,63,1054],1]},{"Or":[1055]},{"Opt":1056},{"And":[[1057,101],1]},{"Enter":[0,75]},{"And":[[1059],null]},{"Opt":104},{"Token":24},{"And":[[1061,1062,91],2]},{"Or":[1063]},{"Opt":104},{"Token":23},{"Token":34},{"And":[[1065,1066,63,1067,101,91],2]},{"Or":[1068]},{"Token":87},{"Token":59},{"And":[[1070,1071],null]},{"Token":30},{"Rep":106},{"Call":[151,[[3,1074]]]},{"And":[[1073,101,1075],1]},{"Or":[1076]},{"Token":52},{"Enter":[2,75]},{"Token":61},{"And":[[1080],null]},"Eof",{"And":[[1082],null]},{"And":[[77],null]},{"Or":[1081,1083,1084]},{"And":[[107,1078,1079,1085],1]},{"Or":[1086]},{"Token":79},{"And":[[1088,63],null]},{"Or":[1089]},{"Rep":1090},{"Opt":108},{"And":[[63,1091,1092],null]},{"Token":14},{"And":[[1094,75],null]},{"Or":[1095]},{"And":[[147],null]},{"Or":[1097]},{"And":[[148],null]},{"Or":[1099]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1103},{"And":[[1101,1102,1104,113],null]},{"Or":[1105]},{"And":[[75,1106],null]},{"Or":[1107]},{"IsIn":2},{"Not":77},{"And":[[1109,1110],null]},{"IsIn":2},{"Not":1112},{"And":[[1113],null]},{"Or":[1111,1114]},{"And":[[1115,113],null]},{"Or":[1116]},{"And":[[75,1117],null]},{"Or":[1118]},{"Call":[150,[[2,114]]]},{"Call":[152,[[4,1120]]]},{"Call":[78,[[0,1121]]]},{"And":[[1122],null]},{"And":[[75],null]},{"Or":[1124]},{"Token":62},{"Token":92},{"And":[[1127],null]},{"Token":89},{"And":[[1129],null]},{"Or":[1128,1130]},{"And":[[1126,1131],null]},{"Or":[1132]},{"And":[[75,1133],null]},{"Or":[1134]},{"Call":[154,[[6,75]]]},{"And":[[75,1136],null]},{"Or":[1137]},{"Token":83},{"And":[[75,1139],null]},{"Or":[1140]},{"Token":5},{"And":[[1142,49],null]},{"Or":[1143]},{"And":[[75,1144],null]},{"Or":[1145]},{"And":[[120,75],null]},{"Or":[1147]},{"Token":77},{"Token":87},{"Opt":1150},{"Token":27},{"Opt":1152},{"And":[[1149,1151,1153],null]},{"Token":67},{"And":[[1155,75],null]},{"Or":[1156]},{"Token":75},{"And":[[1158,75],null]},{"Or":[1159]},{"Token":82},{"And":[[1161,75],null]},{"Or":[1162]},{"Token":67},{"And":[[1164],null]},{"Token":69},{"And":[[1166],null]},{"Token":71},{"And":[[1168],null]},{"Or":[1165,1167,1169]},{"Call":[127,[[1,1170]]]},{"And":[[75,1171,75],null]},{"Or":[1172]},{"Token":73},{"And":[[1174],null]},{"Token":75},{"And":[[1176],null]},{"Or":[1175,1177]},{"Call":[127,[[1,1178]]]},{"And":[[75,1179,75],null]},{"Or":[1180]},{"ContextualToken":[45,"<<"]},{"And":[[1182],null]},{"ContextualToken":[47,">>"]},{"And":[[1184],null]},{"Or":[1183,1185]},{"Call":[127,[[1,1186]]]},{"And":[[75,1187,75],null]},{"Or":[1188]},{"IsIn":2},{"Not":77},{"Var":1},{"And":[[1190,1191,1192],null]},{"IsIn":2},{"Not":1194},{"Var":1},{"And":[[1195,1196],null]},{"ContextualToken":[49,"&&"]},{"Not":1198},{"Token":77},{"And":[[1199,1200],null]},{"Or":[1201]},{"Call":[127,[[1,1202]]]},{"And":[[75,1203,75],null]},{"Or":[1204]},{"Token":84},{"Call":[127,[[1,1206]]]},{"And":[[75,1207,75],null]},{"Or":[1208]},{"ContextualToken":[50,"||"]},{"Not":1210},{"Token":79},{"And":[[1211,1212],null]},{"Or":[1213]},{"Call":[127,[[1,1214]]]},{"And":[[75,1215,75],null]},{"Or":[1216]},{"Call":[127,[[1,132]]]},{"And":[[75,1218,75],null]},{"Or":[1219]},{"Token":54},{"And":[[1221],null]},{"Token":55},{"And":[[1223],null]},{"Token":41},{"Token":57},{"Not":1226},{"And":[[1225,1227],null]},{"Token":42},{"Token":56},{"Not":1230},{"And":[[1229,1231],null]},{"Token":57},{"And":[[1233],null]},{"Token":56},{"And":[[1235],null]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,1237]]]},{"And":[[75,1238,75],null]},{"Or":[1239]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,1241]]]},{"And":[[75,1242,75],null]},{"Or":[1243]},{"Call":[127,[[1,140]]]},{"And":[[75,1245,75],null]},{"Or":[1246]},{"And":[[140,75],null]},{"Or":[1248]},{"And":[[75,139],null]},{"Or":[1250]},{"Token":63},{"Not":76},{"And":[[1252,1253],null]},{"Or":[1254]},{"Token":63},{"And":[[1256],null]},{"Token":64},{"And":[[1258],null]},{"Not":76},{"Not":1260},{"Token":39},{"IsIn":0},{"And":[[1262,1263],null]},{"Or":[1264]},{"Not":1265},{"And":[[139,1261,1266],null]},{"Token":53},{"And":[[1268],null]},{"Token":74},{"And":[[1270],null]},{"Token":76},{"And":[[1272],null]},{"Token":68},{"And":[[1274],null]},{"Token":70},{"And":[[1276],null]},{"Token":72},{"And":[[1278],null]},{"Token":78},{"And":[[1280],null]},{"Token":80},{"And":[[1282],null]},{"Token":85},{"And":[[1284],null]},{"ContextualToken":[48,">>="]},{"And":[[1286],null]},{"ContextualToken":[46,"<<="]},{"And":[[1288],null]},{"Or":[1269,1271,1273,1275,1277,1279,1281,1283,1285,1287,1289]},{"Call":[127,[[1,1290]]]},{"And":[[75,1291,75],null]},{"Or":[1292]},{"Token":65},{"And":[[1294,144],null]},{"Or":[1295]},{"Token":65},{"Token":82},{"And":[[1297,1298,144],null]},{"Or":[1299]},{"Call":[150,[[2,146]]]},{"Call":[154,[[6,1301]]]},{"And":[[1302],null]},{"Rep":142},{"And":[[1304],null]},{"Token":92},{"Token":53},{"And":[[1307,75],null]},{"Call":[150,[[2,146]]]},{"Call":[152,[[4,1309]]]},{"And":[[1310],null]},{"Or":[1308,1311]},{"Opt":1312},{"And":[[1306,1313],1]},{"Or":[1314]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1318},{"Rep":149},{"Call":[151,[[3,1320]]]},{"And":[[1316,1317,1319,1321],null]},{"Or":[1322]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1326},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1328,1329,1330],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1332,1333,1334],null]},{"Or":[1331,1335]},{"And":[[1324,1325,1327,1336],null]},{"Or":[1337]},{"Token":37},{"And":[[1339],null]},{"Token":38},{"And":[[1341],null]},{"Token":39},{"And":[[1343],null]},{"Token":40},{"And":[[1345],null]},{"Token":43},{"And":[[1347],null]},{"Token":44},{"And":[[1349],null]},{"Or":[1340,1342,1344,1346,1348,1350]},{"Not":1351},"Any",{"And":[[1352,1353],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1355,1356,1357],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1359,1360,1361],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1363,1364,1365],null]},{"Or":[1354,1358,1362,1366]},{"Var":2},"Eof",{"And":[[1369],null]},{"Token":61},{"And":[[1371],null]},{"Or":[1370,1372]},{"And":[[1368,1373],1]},{"Or":[1374]},{"Rep":1375},{"And":[[1376],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[155,[[7,1378],[8,1379],[9,1380]]]},{"And":[[1381],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[155,[[7,1383],[8,1384],[9,1385]]]},{"And":[[1386],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[155,[[7,1388],[8,1389],[9,1390]]]},{"And":[[1391],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[155,[[7,1393],[8,1394],[9,1395]]]},{"And":[[1396],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[156,[[10,1399],[11,1400]]]},{"Var":9},{"Layer":[1401,1402]},{"Var":8},{"And":[[1398,1403,1404],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[156,[[10,1407],[11,1408]]]},{"Var":11},{"And":[[1406,1409,1410],1]},{"Var":11},{"Not":1412},"Any",{"And":[[1413,1414],null]},{"Or":[1415]},{"And":[[1416],null]},{"Or":[1411,1417]},{"Rep":1418},{"And":[[1419],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From 389986783062c8d6af7cba9f3d56d86bcde1879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 11/31] fix: casts bind weaker than unary operators in Rust and
 take no bounds

---
 lang/rust/syntax/src/rust.fall | 10 ++++++++--
 lang/rust/syntax/src/rust.rs   |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index 606aceb..ff8fadb 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -428,6 +428,12 @@ pub rule type_reference {
 }
 test r"type T = Box<Iterator<Item=T + 'static> + Send>;"
 
+// No bounds here: `x as u8 + y` is a sum.
+#[type(type_reference)]
+pub rule cast_type {
+  any_type
+}
+
 rule any_type {
   path_type | reference_type | pointer_type
 | placeholder_type | unit_type | paren_type | never_type
@@ -1010,9 +1016,9 @@ test r"
 fn main() { -x??; }
 "
 
-#[postfix]
+#[postfix(12)]
 pub rule cast_expr {
-  expr {'as' type_reference}
+  expr {'as' cast_type}
 }
 test r"
 fn main() { 1 as u128; }
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 50768aa..9dc8eb5 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":221,"replaceable":false}},{"Pub":{"ty":97,"body":228,"replaceable":false}},{"Pub":{"ty":98,"body":244,"replaceable":false}},{"Or":[246]},{"Pub":{"ty":99,"body":251,"replaceable":false}},{"Or":[257]},{"Pub":{"ty":100,"body":260,"replaceable":false}},{"Pub":{"ty":101,"body":266,"replaceable":false}},{"Pub":{"ty":102,"body":283,"replaceable":false}},{"Pub":{"ty":103,"body":302,"replaceable":false}},{"Pub":{"ty":104,"body":307,"replaceable":false}},{"Pub":{"ty":105,"body":310,"replaceable":false}},{"Pub":{"ty":106,"body":317,"replaceable":false}},{"Pub":{"ty":107,"body":330,"replaceable":false}},{"Pub":{"ty":108,"body":339,"replaceable":false}},{"Pub":{"ty":109,"body":352,"replaceable":false}},{"Pub":{"ty":110,"body":360,"replaceable":false}},{"Pub":{"ty":111,"body":372,"replaceable":false}},{"Or":[373,374,375,376]},{"Or":[378,380,382,384,386,388,390,392,397]},{"Pub":{"ty":112,"body":407,"replaceable":false}},{"Pub":{"ty":113,"body":421,"replaceable":false}},{"Pub":{"ty":114,"body":425,"replaceable":false}},{"Pub":{"ty":115,"body":429,"replaceable":false}},{"Or":[437]},{"Pub":{"ty":116,"body":444,"replaceable":false}},{"Pub":{"ty":117,"body":448,"replaceable":false}},{"Or":[468]},{"Pub":{"ty":118,"body":473,"replaceable":false}},{"Pub":{"ty":119,"body":493,"replaceable":false}},{"Pub":{"ty":120,"body":503,"replaceable":false}},{"Pub":{"ty":121,"body":518,"replaceable":false}},{"Or":[519]},{"Or":[521]},{"Or":[523]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":526,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":530,"replaceable":false}},{"Pub":{"ty":122,"body":535,"replaceable":false}},{"Pub":{"ty":123,"body":542,"replaceable":false}},{"Pub":{"ty":124,"body":556,"replaceable":false}},{"Pub":{"ty":125,"body":582,"replaceable":false}},{"Pub":{"ty":126,"body":587,"replaceable":false}},{"Pub":{"ty":127,"body":591,"replaceable":false}},{"Pub":{"ty":128,"body":597,"replaceable":false}},{"Or":[598,599,600,601,602,603,604,605,606,607]},{"Pub":{"ty":129,"body":609,"replaceable":false}},{"Pub":{"ty":130,"body":611,"replaceable":false}},{"Pub":{"ty":131,"body":619,"replaceable":false}},{"Pub":{"ty":132,"body":622,"replaceable":false}},{"Pub":{"ty":133,"body":626,"replaceable":false}},{"Pub":{"ty":134,"body":632,"replaceable":true}},{"PubReplace":{"ty":135,"body":636}},{"Pub":{"ty":136,"body":639,"replaceable":false}},{"Pub":{"ty":137,"body":648,"replaceable":false}},{"Pub":{"ty":138,"body":655,"replaceable":false}},{"Pub":{"ty":100,"body":661,"replaceable":false}},{"Pub":{"ty":139,"body":664,"replaceable":false}},{"Or":[665,666,667,668,669,670,671]},{"Pub":{"ty":140,"body":674,"replaceable":false}},{"Pub":{"ty":141,"body":680,"replaceable":true}},{"PubReplace":{"ty":142,"body":692}},{"PubReplace":{"ty":143,"body":704}},{"Pub":{"ty":144,"body":711,"replaceable":false}},{"Pub":{"ty":145,"body":718,"replaceable":false}},{"Pub":{"ty":146,"body":720,"replaceable":false}},{"Pub":{"ty":147,"body":724,"replaceable":false}},{"Pub":{"ty":148,"body":730,"replaceable":true}},{"PubReplace":{"ty":149,"body":734}},{"Pub":{"ty":150,"body":739,"replaceable":false}},{"Pratt":{"atoms":[79,80,83,84,86,87,89,90,91,98,99,102,103,105,109,110,138],"prefixes":[{"ty":184,"op":120,"priority":999},{"ty":185,"op":768,"priority":999},{"ty":186,"op":769,"priority":999},{"ty":187,"op":770,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":745,"priority":999,"has_rhs":false},{"ty":178,"op":754,"priority":999,"has_rhs":false},{"ty":180,"op":762,"priority":999,"has_rhs":false},{"ty":181,"op":763,"priority":999,"has_rhs":false},{"ty":182,"op":764,"priority":999,"has_rhs":false},{"ty":183,"op":767,"priority":999,"has_rhs":false},{"ty":188,"op":778,"priority":11,"has_rhs":true},{"ty":189,"op":784,"priority":10,"has_rhs":true},{"ty":190,"op":790,"priority":9,"has_rhs":true},{"ty":191,"op":796,"priority":8,"has_rhs":true},{"ty":192,"op":798,"priority":7,"has_rhs":true},{"ty":193,"op":804,"priority":6,"has_rhs":true},{"ty":194,"op":805,"priority":5,"has_rhs":true},{"ty":195,"op":807,"priority":4,"has_rhs":true},{"ty":196,"op":809,"priority":3,"has_rhs":true},{"ty":197,"op":810,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":834,"priority":1,"has_rhs":true}]}},{"Or":[835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885]},{"Or":[887]},{"Or":[891]},{"Pub":{"ty":152,"body":902,"replaceable":false}},{"Pub":{"ty":153,"body":910,"replaceable":true}},{"PubReplace":{"ty":154,"body":923}},{"Pub":{"ty":155,"body":930,"replaceable":false}},{"Pub":{"ty":156,"body":934,"replaceable":false}},{"Pub":{"ty":157,"body":941,"replaceable":true}},{"PubReplace":{"ty":158,"body":946}},{"Pub":{"ty":159,"body":959,"replaceable":false}},{"Pub":{"ty":160,"body":971,"replaceable":false}},{"Or":[979]},{"Pub":{"ty":161,"body":983,"replaceable":false}},{"Pub":{"ty":162,"body":992,"replaceable":false}},{"Pub":{"ty":163,"body":1002,"replaceable":false}},{"Or":[1003,1004,1005,1006]},{"Or":[1008,1010,1011,1012]},{"Pub":{"ty":164,"body":1021,"replaceable":false}},{"Pub":{"ty":165,"body":1024,"replaceable":false}},{"Pub":{"ty":166,"body":1027,"replaceable":false}},{"Pub":{"ty":167,"body":1038,"replaceable":false}},{"Pub":{"ty":168,"body":1048,"replaceable":false}},{"Pub":{"ty":169,"body":1052,"replaceable":false}},{"Or":[1058]},{"Or":[1060]},{"Pub":{"ty":170,"body":1064,"replaceable":false}},{"Pub":{"ty":171,"body":1069,"replaceable":false}},{"Or":[1072]},{"Pub":{"ty":172,"body":1077,"replaceable":false}},{"Pub":{"ty":173,"body":1087,"replaceable":false}},{"Or":[1093]},{"Pub":{"ty":174,"body":1096,"replaceable":false}},{"Pub":{"ty":175,"body":1098,"replaceable":false}},{"Pub":{"ty":176,"body":1100,"replaceable":false}},{"Pub":{"ty":177,"body":1108,"replaceable":false}},{"Pub":{"ty":178,"body":1119,"replaceable":false}},{"Or":[1123]},{"Pub":{"ty":179,"body":1125,"replaceable":false}},{"Pub":{"ty":180,"body":1135,"replaceable":false}},{"Pub":{"ty":181,"body":1138,"replaceable":false}},{"Pub":{"ty":182,"body":1141,"replaceable":false}},{"Pub":{"ty":183,"body":1146,"replaceable":false}},{"Pub":{"ty":184,"body":1148,"replaceable":false}},{"Or":[1154]},{"Pub":{"ty":185,"body":1157,"replaceable":false}},{"Pub":{"ty":186,"body":1160,"replaceable":false}},{"Pub":{"ty":187,"body":1163,"replaceable":false}},{"Pub":{"ty":188,"body":1173,"replaceable":false}},{"Pub":{"ty":189,"body":1181,"replaceable":false}},{"Pub":{"ty":190,"body":1189,"replaceable":false}},{"Or":[1193,1197]},{"Pub":{"ty":191,"body":1205,"replaceable":false}},{"Pub":{"ty":192,"body":1209,"replaceable":false}},{"Pub":{"ty":193,"body":1217,"replaceable":false}},{"Pub":{"ty":194,"body":1220,"replaceable":false}},{"Or":[1222,1224,1228,1232,1234,1236]},{"Pub":{"ty":195,"body":1240,"replaceable":false}},{"Pub":{"ty":196,"body":1244,"replaceable":false}},{"Pub":{"ty":197,"body":1247,"replaceable":false}},{"Pub":{"ty":197,"body":1249,"replaceable":false}},{"Pub":{"ty":197,"body":1251,"replaceable":false}},{"Pub":{"ty":197,"body":1255,"replaceable":false}},{"Or":[1257,1259]},{"Or":[1267]},{"Pub":{"ty":198,"body":1293,"replaceable":false}},{"Pub":{"ty":199,"body":1296,"replaceable":false}},{"Pub":{"ty":200,"body":1300,"replaceable":false}},{"Or":[1303]},{"Or":[1305]},{"Pub":{"ty":201,"body":1315,"replaceable":false}},{"Pub":{"ty":202,"body":1323,"replaceable":false}},{"Pub":{"ty":203,"body":1338,"replaceable":false}},{"Pub":{"ty":204,"body":1367,"replaceable":false}},{"Or":[1377]},{"Or":[1382]},{"Or":[1387]},{"Or":[1392]},{"Or":[1397]},{"Or":[1405]},{"Or":[1420]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[2,6]]]},{"Call":[151,[[3,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"And":[[216],null]},{"Token":92},{"Opt":48},{"And":[[218,219],1]},{"Or":[217,220]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[222,223,224,225,226],2]},{"Or":[227]},{"Token":21},{"Opt":229},{"Token":35},{"Opt":231},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[91],null]},{"Token":58},{"And":[[240],null]},{"Or":[239,241]},{"And":[[230,232,233,234,235,236,11,237,238,242],4]},{"Or":[243]},{"Token":51},{"And":[[245,49],null]},{"Token":7},{"Token":90},{"Opt":248},{"And":[[247,249],null]},{"Or":[250]},{"Opt":14},{"Call":[150,[[2,12]]]},{"And":[[252,253],null]},{"Or":[254]},{"Call":[152,[[4,255]]]},{"And":[[256],null]},{"Token":59},{"And":[[63,258,49],1]},{"Or":[259]},{"Token":59},{"And":[[261,49],null]},{"Or":[262]},{"Opt":263},{"And":[[63,264],null]},{"Or":[265]},{"And":[[120],null]},{"Token":27},{"And":[[268],null]},{"Or":[267,269]},{"Opt":270},{"Token":18},{"Token":59},{"And":[[273,49],null]},{"Or":[274]},{"Opt":275},{"Token":61},{"And":[[277],null]},"Eof",{"And":[[279],null]},{"Or":[278,280]},{"And":[[271,272,276,281],2]},{"Or":[282]},{"Token":11},{"And":[[284],null]},{"ContextualToken":[4,"union"]},{"And":[[286],null]},{"Or":[285,287]},{"Token":92},{"Opt":31},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,291]]]},{"And":[[292],null]},{"Token":58},{"And":[[294],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,296]]]},{"Token":58},{"And":[[297,298],null]},{"Or":[293,295,299]},{"And":[[288,289,290,300],1]},{"Or":[301]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[303,304,305,49],2]},{"Or":[306]},{"Opt":36},{"And":[[308,49],null]},{"Or":[309]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[2,19]]]},{"Call":[151,[[3,314]]]},{"And":[[311,312,313,315],1]},{"Or":[316]},{"Token":92},{"Token":53},{"And":[[319,75],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,321]]]},{"And":[[322],null]},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,324]]]},{"And":[[325],null]},{"Or":[320,323,326]},{"Opt":327},{"And":[[318,328],1]},{"Or":[329]},{"Token":13},{"Token":92},{"Token":58},{"And":[[333],null]},{"Call":[151,[[3,1]]]},{"And":[[335],null]},{"Or":[334,336]},{"And":[[331,332,337],1]},{"Or":[338]},{"Token":35},{"Opt":340},{"Token":17},{"Opt":31},{"Token":23},{"And":[[344,49],null]},{"Or":[345]},{"Opt":346},{"And":[[49,347],null]},{"Or":[348]},{"Opt":37},{"And":[[341,342,343,349,350,23],2]},{"Or":[351]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,353,354,355,356,357,358,23],3]},{"Or":[359]},{"Opt":36},{"And":[[145,361],null]},{"Or":[362]},{"Inject":[363,24]},{"And":[[364],null]},{"And":[[28],null]},{"Or":[365,366]},{"WithSkip":[25,367]},{"Rep":368},{"Call":[151,[[3,369]]]},{"And":[[370],null]},{"Or":[371]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[377],null]},{"Token":8},{"And":[[379],null]},{"Token":20},{"And":[[381],null]},{"Token":21},{"And":[[383],null]},{"Token":22},{"And":[[385],null]},{"Token":35},{"And":[[387],null]},{"Token":65},{"And":[[389],null]},{"Token":7},{"And":[[391],null]},{"Token":92},{"Token":82},{"And":[[393,394],null]},{"Or":[395]},{"And":[[396],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[401,49],null]},{"Or":[402]},{"Opt":403},{"Token":58},{"And":[[398,399,400,404,405],1]},{"Or":[406]},{"Token":21},{"And":[[408],null]},{"Token":22},{"And":[[410],null]},{"Or":[409,411]},{"Token":92},{"Token":59},{"Token":53},{"And":[[415,75],null]},{"Or":[416]},{"Opt":417},{"Token":58},{"And":[[412,413,414,49,418,419],1]},{"Or":[420]},{"And":[[147],null]},{"Token":58},{"And":[[148,423],null]},{"Or":[422,424]},{"Rep":30},{"Call":[151,[[3,426]]]},{"And":[[10,427],null]},{"Or":[428]},{"Opt":36},{"And":[[145,430],null]},{"Or":[431]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[433,434]},{"Inject":[432,435]},{"And":[[436],null]},{"Call":[150,[[2,35]]]},{"Call":[150,[[2,32]]]},{"And":[[438,439],null]},{"Or":[440]},{"Call":[153,[[5,441]]]},{"And":[[442],null]},{"Or":[443]},{"Token":92},{"Opt":33},{"And":[[445,446],1]},{"Or":[447]},{"Token":59},{"Token":73},{"And":[[450],null]},"Eof",{"And":[[452],null]},{"Token":61},{"And":[[454],null]},{"Token":39},{"And":[[456],null]},{"Token":36},{"And":[[458],null]},{"Or":[455,457,459]},{"Not":460},{"Not":461},{"And":[[462],null]},{"Or":[451,453,463]},{"And":[[34,464],1]},{"Or":[465]},{"Rep":466},{"And":[[449,467],null]},{"Token":87},{"And":[[469],null]},{"And":[[51],null]},{"And":[[62],null]},{"Or":[470,471,472]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[477],null]},"Eof",{"And":[[479],null]},{"Token":61},{"Not":481},{"Not":482},{"And":[[483],null]},{"Or":[478,480,484]},{"And":[[476,485],1]},{"Or":[486]},{"Rep":487},{"And":[[475,488],null]},{"Or":[489]},{"Opt":490},{"And":[[474,491],1]},{"Or":[492]},{"Token":10},{"Token":6},{"And":[[495],null]},{"Token":19},{"And":[[497],null]},{"Or":[496,498]},{"Call":[152,[[4,499]]]},{"Opt":500},{"And":[[494,501],null]},{"Or":[502]},{"Token":36},{"Token":61},{"And":[[505],null]},"Eof",{"And":[[507],null]},{"Token":39},{"Not":509},{"Not":510},{"And":[[511],null]},{"Or":[506,508,512]},{"And":[[49,33,513],null]},{"Or":[514]},{"Rep":515},{"And":[[504,516],1]},{"Or":[517]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[520],null]},{"Enter":[1,41]},{"And":[[522],null]},{"Token":60},{"And":[[524,45],null]},{"Or":[525]},{"Token":60},{"Opt":527},{"And":[[528,45],null]},{"Or":[529]},{"Token":60},{"And":[[531,45],null]},{"Or":[532]},{"And":[[41,533],null]},{"Or":[534]},{"Token":5},{"And":[[49,536,49],null]},{"Or":[537]},{"Call":[153,[[5,538]]]},{"Token":60},{"And":[[539,540,45],null]},{"Or":[541]},{"Token":92},{"And":[[543],null]},{"Token":18},{"And":[[545],null]},{"Token":19},{"And":[[547],null]},{"Or":[544,546,548]},{"And":[[46],null]},{"IsIn":3},{"And":[[551,47],null]},{"Or":[550,552]},{"Opt":553},{"And":[[549,554],null]},{"Or":[555]},{"IsIn":3},{"And":[[557],null]},{"IsIn":1},{"Token":60},{"And":[[559,560],null]},{"Or":[558,561]},{"Token":87},{"Call":[150,[[2,563]]]},{"Token":92},{"Token":53},{"And":[[565,566],null]},{"Or":[567]},{"Not":568},{"And":[[569,49],null]},{"Or":[570]},{"Call":[150,[[2,571]]]},{"Token":92},{"Token":53},{"And":[[573,574,49],null]},{"Or":[575]},{"Call":[150,[[2,576]]]},{"And":[[564,572,577],null]},{"Or":[578]},{"Call":[153,[[5,579]]]},{"And":[[562,580],null]},{"Or":[581]},{"Call":[150,[[2,49]]]},{"Call":[152,[[4,583]]]},{"Opt":9},{"And":[[584,585],null]},{"Or":[586]},{"Token":5},{"Token":92},{"And":[[588,589],null]},{"Or":[590]},{"Token":73},{"And":[[592,34],null]},{"Or":[593]},{"Rep":594},{"And":[[50,595],null]},{"Or":[596]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[62],null]},{"And":[[39],null]},{"Or":[608]},{"And":[[120,49],null]},{"Or":[610]},{"Token":67},{"Token":21},{"And":[[613],null]},{"Token":27},{"And":[[615],null]},{"Or":[614,616]},{"And":[[612,617,49],null]},{"Or":[618]},{"Token":81},{"And":[[620],null]},{"Or":[621]},{"Token":37},{"Token":38},{"And":[[623,624],null]},{"Or":[625]},{"Opt":57},{"And":[[49,627],null]},{"Or":[628]},{"Call":[152,[[4,629]]]},{"And":[[630],null]},{"Or":[631]},{"Token":61},{"Call":[150,[[2,49]]]},{"And":[[633,634],null]},{"Or":[635]},{"Token":82},{"And":[[637],null]},{"Or":[638]},{"Token":58},{"And":[[640,75],null]},{"Or":[641]},{"Opt":642},{"And":[[49,643],null]},{"Or":[644]},{"Call":[154,[[6,645]]]},{"And":[[646],null]},{"Or":[647]},{"Opt":10},{"Token":8},{"Call":[150,[[2,61]]]},{"Call":[152,[[4,651]]]},{"Opt":9},{"And":[[649,650,652,653],2]},{"Or":[654]},{"Token":59},{"And":[[63,656],null]},{"Or":[657]},{"Opt":658},{"And":[[659,49],null]},{"Or":[660]},{"Token":23},{"And":[[662,31,49],1]},{"Or":[663]},{"And":[[64],null]},{"And":[[65],null]},{"And":[[69],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[74],null]},{"Token":81},{"And":[[672],null]},{"Or":[673]},{"And":[[66],null]},{"And":[[67],null]},{"Or":[675,676]},{"Opt":677},{"And":[[40,678],null]},{"Or":[679]},{"Call":[150,[[2,63]]]},{"Token":63},{"Token":61},{"Opt":683},{"And":[[682,684],null]},{"Or":[685]},{"Opt":686},{"And":[[681,687],null]},{"Or":[688]},{"Call":[152,[[4,689]]]},{"And":[[690],null]},{"Or":[691]},{"Call":[150,[[2,68]]]},{"Token":63},{"Token":61},{"Opt":695},{"And":[[694,696],null]},{"Or":[697]},{"Opt":698},{"And":[[693,699],null]},{"Or":[700]},{"Call":[151,[[3,701]]]},{"And":[[702],null]},{"Or":[703]},{"Token":59},{"Not":705},{"And":[[69,706],null]},{"Token":92},{"Token":59},{"And":[[708,709,63],2]},{"Or":[707,710]},{"Token":28},{"Opt":712},{"Token":27},{"Opt":714},{"Token":92},{"And":[[713,715,716],null]},{"Or":[717]},{"And":[[79],null]},{"Or":[719]},{"Token":37},{"Token":38},{"And":[[721,722],null]},{"Or":[723]},{"Opt":73},{"And":[[63,725],null]},{"Or":[726]},{"Call":[152,[[4,727]]]},{"And":[[728],null]},{"Or":[729]},{"Token":61},{"Call":[150,[[2,63]]]},{"And":[[731,732],null]},{"Or":[733]},{"Token":77},{"Token":27},{"Opt":736},{"And":[[735,737,63],null]},{"Or":[738]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":742},{"And":[[740,741,743,113],null]},{"Or":[744]},{"IsIn":2},{"Not":77},{"And":[[746,747],null]},{"IsIn":2},{"Not":749},{"And":[[750],null]},{"Or":[748,751]},{"And":[[752,113],null]},{"Or":[753]},{"Token":62},{"Token":92},{"And":[[756],null]},{"Token":89},{"And":[[758],null]},{"Or":[757,759]},{"And":[[755,760],null]},{"Or":[761]},{"Call":[154,[[6,75]]]},{"Token":83},{"Token":5},{"And":[[765,49],null]},{"Or":[766]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[771],null]},{"Token":69},{"And":[[773],null]},{"Token":71},{"And":[[775],null]},{"Or":[772,774,776]},{"Call":[127,[[1,777]]]},{"Token":73},{"And":[[779],null]},{"Token":75},{"And":[[781],null]},{"Or":[780,782]},{"Call":[127,[[1,783]]]},{"ContextualToken":[45,"<<"]},{"And":[[785],null]},{"ContextualToken":[47,">>"]},{"And":[[787],null]},{"Or":[786,788]},{"Call":[127,[[1,789]]]},{"ContextualToken":[49,"&&"]},{"Not":791},{"Token":77},{"And":[[792,793],null]},{"Or":[794]},{"Call":[127,[[1,795]]]},{"Token":84},{"Call":[127,[[1,797]]]},{"ContextualToken":[50,"||"]},{"Not":799},{"Token":79},{"And":[[800,801],null]},{"Or":[802]},{"Call":[127,[[1,803]]]},{"Call":[127,[[1,132]]]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,806]]]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,808]]]},{"Call":[127,[[1,140]]]},{"Token":53},{"And":[[811],null]},{"Token":74},{"And":[[813],null]},{"Token":76},{"And":[[815],null]},{"Token":68},{"And":[[817],null]},{"Token":70},{"And":[[819],null]},{"Token":72},{"And":[[821],null]},{"Token":78},{"And":[[823],null]},{"Token":80},{"And":[[825],null]},{"Token":85},{"And":[[827],null]},{"ContextualToken":[48,">>="]},{"And":[[829],null]},{"ContextualToken":[46,"<<="]},{"And":[[831],null]},{"Or":[812,814,816,818,820,822,824,826,828,830,832]},{"Call":[127,[[1,833]]]},{"And":[[79],null]},{"Token":92},{"And":[[836],null]},{"Token":87},{"And":[[838],null]},{"Token":18},{"And":[[840],null]},{"Token":19},{"And":[[842],null]},{"Token":41},{"And":[[844],null]},{"Token":60},{"And":[[846],null]},{"Token":37},{"And":[[848],null]},{"Token":43},{"And":[[850],null]},{"Token":79},{"And":[[852],null]},{"Token":31},{"And":[[854],null]},{"Token":39},{"And":[[856],null]},{"Token":14},{"And":[[858],null]},{"Token":25},{"And":[[860],null]},{"Token":24},{"And":[[862],null]},{"Token":23},{"And":[[864],null]},{"Token":30},{"And":[[866],null]},{"Token":26},{"And":[[868],null]},{"Token":32},{"And":[[870],null]},{"Token":33},{"And":[[872],null]},{"Token":77},{"And":[[874],null]},{"Token":67},{"And":[[876],null]},{"Token":75},{"And":[[878],null]},{"Token":82},{"And":[[880],null]},{"Token":63},{"And":[[882],null]},{"Token":64},{"And":[[884],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[886],null]},{"Var":0},{"Exit":[2,888]},{"Exit":[0,889]},{"And":[[890],null]},{"Token":89},{"And":[[892],null]},{"Token":90},{"And":[[894],null]},{"Token":91},{"And":[[896],null]},{"Token":86},{"And":[[898],null]},{"Token":88},{"And":[[900],null]},{"Or":[893,895,897,899,901]},{"Token":92},{"Token":82},{"And":[[903,904],null]},{"Or":[905]},{"Not":906},{"Opt":81},{"And":[[907,40,908],null]},{"Or":[909]},{"IsIn":0},{"Not":911},{"Call":[150,[[2,82]]]},{"Token":63},{"Call":[78,[[0,75]]]},{"And":[[914,915],null]},{"Or":[916]},{"Opt":917},{"And":[[913,918],null]},{"Or":[919]},{"Call":[151,[[3,920]]]},{"And":[[912,921],null]},{"Or":[922]},{"Token":92},{"Token":59},{"And":[[925,75],null]},{"Or":[926]},{"Opt":927},{"And":[[924,928],1]},{"Or":[929]},{"Token":37},{"Token":38},{"And":[[931,932],null]},{"Or":[933]},{"Call":[78,[[0,75]]]},{"Opt":85},{"And":[[935,936],null]},{"Or":[937]},{"Call":[152,[[4,938]]]},{"And":[[939],null]},{"Or":[940]},{"Token":61},{"Call":[78,[[0,75]]]},{"Call":[150,[[2,943]]]},{"And":[[942,944],null]},{"Or":[945]},{"Token":58},{"And":[[947,75],null]},{"Token":61},{"Call":[150,[[2,75]]]},{"And":[[949,950],null]},{"Or":[948,951]},{"Opt":952},{"And":[[75,953],null]},{"Or":[954]},{"Call":[78,[[0,955]]]},{"Call":[154,[[6,956]]]},{"And":[[957],null]},{"Or":[958]},{"Token":26},{"Opt":960},{"Token":79},{"Rep":88},{"Token":79},{"Token":51},{"And":[[965,49,91],null]},{"Call":[78,[[0,75]]]},{"And":[[967],null]},{"Or":[966,968]},{"And":[[961,962,963,964,969],null]},{"Or":[970]},{"Token":61},{"And":[[972],null]},{"Token":79},{"Not":974},{"Not":975},{"And":[[976],null]},{"Or":[973,977]},{"And":[[13,978],1]},{"Token":31},{"Opt":75},{"And":[[980,981],null]},{"Or":[982]},{"Token":33},{"And":[[984],null]},{"Token":32},{"And":[[986],null]},{"Or":[985,987]},{"Token":87},{"Opt":989},{"And":[[988,990],null]},{"Or":[991]},{"Token":35},{"Opt":993},{"WithSkip":[93,92]},{"Rep":995},{"Call":[151,[[3,996]]]},{"And":[[994,997],null]},{"Or":[998]},{"Call":[78,[[0,999]]]},{"And":[[1000],null]},{"Or":[1001]},{"And":[[94],null]},{"And":[[96],null]},{"And":[[3],null]},{"And":[[97],null]},{"Token":9},{"And":[[1007],null]},{"Token":58},{"And":[[1009],null]},{"And":[[2],null]},{"And":[[76],null]},{"Token":9},{"Opt":95},{"Token":53},{"And":[[1015,75],1]},{"Or":[1016]},{"Opt":1017},{"Token":58},{"And":[[1013,63,1014,1018,1019],1]},{"Or":[1020]},{"Token":59},{"And":[[1022,49],null]},{"Or":[1023]},{"Token":58},{"And":[[1025],null]},{"Or":[1026]},{"And":[[77],null]},"Eof",{"And":[[1029],null]},{"Token":58},{"And":[[1031],null]},{"Or":[1028,1030,1032]},{"And":[[75,1033],1]},{"Or":[1034]},{"Enter":[2,1035]},{"And":[[1036],null]},{"Or":[1037]},{"Token":14},{"Token":15},{"And":[[91],null]},{"And":[[98],null]},{"Or":[1041,1042]},{"And":[[1040,1043],null]},{"Or":[1044]},{"Opt":1045},{"And":[[1039,100,91,1046],1]},{"Or":[1047]},{"Opt":104},{"Token":25},{"And":[[1049,1050,100,91],2]},{"Or":[1051]},{"Token":9},{"Token":53},{"And":[[1053,63,1054],1]},{"Or":[1055]},{"Opt":1056},{"And":[[1057,101],1]},{"Enter":[0,75]},{"And":[[1059],null]},{"Opt":104},{"Token":24},{"And":[[1061,1062,91],2]},{"Or":[1063]},{"Opt":104},{"Token":23},{"Token":34},{"And":[[1065,1066,63,1067,101,91],2]},{"Or":[1068]},{"Token":87},{"Token":59},{"And":[[1070,1071],null]},{"Token":30},{"Rep":106},{"Call":[151,[[3,1074]]]},{"And":[[1073,101,1075],1]},{"Or":[1076]},{"Token":52},{"Enter":[2,75]},{"Token":61},{"And":[[1080],null]},"Eof",{"And":[[1082],null]},{"And":[[77],null]},{"Or":[1081,1083,1084]},{"And":[[107,1078,1079,1085],1]},{"Or":[1086]},{"Token":79},{"And":[[1088,63],null]},{"Or":[1089]},{"Rep":1090},{"Opt":108},{"And":[[63,1091,1092],null]},{"Token":14},{"And":[[1094,75],null]},{"Or":[1095]},{"And":[[147],null]},{"Or":[1097]},{"And":[[148],null]},{"Or":[1099]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1103},{"And":[[1101,1102,1104,113],null]},{"Or":[1105]},{"And":[[75,1106],null]},{"Or":[1107]},{"IsIn":2},{"Not":77},{"And":[[1109,1110],null]},{"IsIn":2},{"Not":1112},{"And":[[1113],null]},{"Or":[1111,1114]},{"And":[[1115,113],null]},{"Or":[1116]},{"And":[[75,1117],null]},{"Or":[1118]},{"Call":[150,[[2,114]]]},{"Call":[152,[[4,1120]]]},{"Call":[78,[[0,1121]]]},{"And":[[1122],null]},{"And":[[75],null]},{"Or":[1124]},{"Token":62},{"Token":92},{"And":[[1127],null]},{"Token":89},{"And":[[1129],null]},{"Or":[1128,1130]},{"And":[[1126,1131],null]},{"Or":[1132]},{"And":[[75,1133],null]},{"Or":[1134]},{"Call":[154,[[6,75]]]},{"And":[[75,1136],null]},{"Or":[1137]},{"Token":83},{"And":[[75,1139],null]},{"Or":[1140]},{"Token":5},{"And":[[1142,49],null]},{"Or":[1143]},{"And":[[75,1144],null]},{"Or":[1145]},{"And":[[120,75],null]},{"Or":[1147]},{"Token":77},{"Token":87},{"Opt":1150},{"Token":27},{"Opt":1152},{"And":[[1149,1151,1153],null]},{"Token":67},{"And":[[1155,75],null]},{"Or":[1156]},{"Token":75},{"And":[[1158,75],null]},{"Or":[1159]},{"Token":82},{"And":[[1161,75],null]},{"Or":[1162]},{"Token":67},{"And":[[1164],null]},{"Token":69},{"And":[[1166],null]},{"Token":71},{"And":[[1168],null]},{"Or":[1165,1167,1169]},{"Call":[127,[[1,1170]]]},{"And":[[75,1171,75],null]},{"Or":[1172]},{"Token":73},{"And":[[1174],null]},{"Token":75},{"And":[[1176],null]},{"Or":[1175,1177]},{"Call":[127,[[1,1178]]]},{"And":[[75,1179,75],null]},{"Or":[1180]},{"ContextualToken":[45,"<<"]},{"And":[[1182],null]},{"ContextualToken":[47,">>"]},{"And":[[1184],null]},{"Or":[1183,1185]},{"Call":[127,[[1,1186]]]},{"And":[[75,1187,75],null]},{"Or":[1188]},{"IsIn":2},{"Not":77},{"Var":1},{"And":[[1190,1191,1192],null]},{"IsIn":2},{"Not":1194},{"Var":1},{"And":[[1195,1196],null]},{"ContextualToken":[49,"&&"]},{"Not":1198},{"Token":77},{"And":[[1199,1200],null]},{"Or":[1201]},{"Call":[127,[[1,1202]]]},{"And":[[75,1203,75],null]},{"Or":[1204]},{"Token":84},{"Call":[127,[[1,1206]]]},{"And":[[75,1207,75],null]},{"Or":[1208]},{"ContextualToken":[50,"||"]},{"Not":1210},{"Token":79},{"And":[[1211,1212],null]},{"Or":[1213]},{"Call":[127,[[1,1214]]]},{"And":[[75,1215,75],null]},{"Or":[1216]},{"Call":[127,[[1,132]]]},{"And":[[75,1218,75],null]},{"Or":[1219]},{"Token":54},{"And":[[1221],null]},{"Token":55},{"And":[[1223],null]},{"Token":41},{"Token":57},{"Not":1226},{"And":[[1225,1227],null]},{"Token":42},{"Token":56},{"Not":1230},{"And":[[1229,1231],null]},{"Token":57},{"And":[[1233],null]},{"Token":56},{"And":[[1235],null]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,1237]]]},{"And":[[75,1238,75],null]},{"Or":[1239]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,1241]]]},{"And":[[75,1242,75],null]},{"Or":[1243]},{"Call":[127,[[1,140]]]},{"And":[[75,1245,75],null]},{"Or":[1246]},{"And":[[140,75],null]},{"Or":[1248]},{"And":[[75,139],null]},{"Or":[1250]},{"Token":63},{"Not":76},{"And":[[1252,1253],null]},{"Or":[1254]},{"Token":63},{"And":[[1256],null]},{"Token":64},{"And":[[1258],null]},{"Not":76},{"Not":1260},{"Token":39},{"IsIn":0},{"And":[[1262,1263],null]},{"Or":[1264]},{"Not":1265},{"And":[[139,1261,1266],null]},{"Token":53},{"And":[[1268],null]},{"Token":74},{"And":[[1270],null]},{"Token":76},{"And":[[1272],null]},{"Token":68},{"And":[[1274],null]},{"Token":70},{"And":[[1276],null]},{"Token":72},{"And":[[1278],null]},{"Token":78},{"And":[[1280],null]},{"Token":80},{"And":[[1282],null]},{"Token":85},{"And":[[1284],null]},{"ContextualToken":[48,">>="]},{"And":[[1286],null]},{"ContextualToken":[46,"<<="]},{"And":[[1288],null]},{"Or":[1269,1271,1273,1275,1277,1279,1281,1283,1285,1287,1289]},{"Call":[127,[[1,1290]]]},{"And":[[75,1291,75],null]},{"Or":[1292]},{"Token":65},{"And":[[1294,144],null]},{"Or":[1295]},{"Token":65},{"Token":82},{"And":[[1297,1298,144],null]},{"Or":[1299]},{"Call":[150,[[2,146]]]},{"Call":[154,[[6,1301]]]},{"And":[[1302],null]},{"Rep":142},{"And":[[1304],null]},{"Token":92},{"Token":53},{"And":[[1307,75],null]},{"Call":[150,[[2,146]]]},{"Call":[152,[[4,1309]]]},{"And":[[1310],null]},{"Or":[1308,1311]},{"Opt":1312},{"And":[[1306,1313],1]},{"Or":[1314]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1318},{"Rep":149},{"Call":[151,[[3,1320]]]},{"And":[[1316,1317,1319,1321],null]},{"Or":[1322]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1326},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1328,1329,1330],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1332,1333,1334],null]},{"Or":[1331,1335]},{"And":[[1324,1325,1327,1336],null]},{"Or":[1337]},{"Token":37},{"And":[[1339],null]},{"Token":38},{"And":[[1341],null]},{"Token":39},{"And":[[1343],null]},{"Token":40},{"And":[[1345],null]},{"Token":43},{"And":[[1347],null]},{"Token":44},{"And":[[1349],null]},{"Or":[1340,1342,1344,1346,1348,1350]},{"Not":1351},"Any",{"And":[[1352,1353],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1355,1356,1357],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1359,1360,1361],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1363,1364,1365],null]},{"Or":[1354,1358,1362,1366]},{"Var":2},"Eof",{"And":[[1369],null]},{"Token":61},{"And":[[1371],null]},{"Or":[1370,1372]},{"And":[[1368,1373],1]},{"Or":[1374]},{"Rep":1375},{"And":[[1376],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[155,[[7,1378],[8,1379],[9,1380]]]},{"And":[[1381],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[155,[[7,1383],[8,1384],[9,1385]]]},{"And":[[1386],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[155,[[7,1388],[8,1389],[9,1390]]]},{"And":[[1391],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[155,[[7,1393],[8,1394],[9,1395]]]},{"And":[[1396],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[156,[[10,1399],[11,1400]]]},{"Var":9},{"Layer":[1401,1402]},{"Var":8},{"And":[[1398,1403,1404],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[156,[[10,1407],[11,1408]]]},{"Var":11},{"And":[[1406,1409,1410],1]},{"Var":11},{"Not":1412},"Any",{"And":[[1413,1414],null]},{"Or":[1415]},{"And":[[1416],null]},{"Or":[1411,1417]},{"Rep":1418},{"And":[[1419],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":159,"replaceable":false}},{"Or":[162]},{"Or":[164,166,168,170,172,174,176,177]},{"Cached":194},{"Pub":{"ty":94,"body":210,"replaceable":false}},{"Pub":{"ty":95,"body":216,"replaceable":false}},{"Pub":{"ty":96,"body":222,"replaceable":false}},{"Pub":{"ty":97,"body":229,"replaceable":false}},{"Pub":{"ty":98,"body":245,"replaceable":false}},{"Or":[247]},{"Pub":{"ty":99,"body":252,"replaceable":false}},{"Or":[258]},{"Pub":{"ty":100,"body":261,"replaceable":false}},{"Pub":{"ty":101,"body":267,"replaceable":false}},{"Pub":{"ty":102,"body":284,"replaceable":false}},{"Pub":{"ty":103,"body":303,"replaceable":false}},{"Pub":{"ty":104,"body":308,"replaceable":false}},{"Pub":{"ty":105,"body":311,"replaceable":false}},{"Pub":{"ty":106,"body":318,"replaceable":false}},{"Pub":{"ty":107,"body":331,"replaceable":false}},{"Pub":{"ty":108,"body":340,"replaceable":false}},{"Pub":{"ty":109,"body":353,"replaceable":false}},{"Pub":{"ty":110,"body":361,"replaceable":false}},{"Pub":{"ty":111,"body":373,"replaceable":false}},{"Or":[374,375,376,377]},{"Or":[379,381,383,385,387,389,391,393,398]},{"Pub":{"ty":112,"body":408,"replaceable":false}},{"Pub":{"ty":113,"body":422,"replaceable":false}},{"Pub":{"ty":114,"body":426,"replaceable":false}},{"Pub":{"ty":115,"body":430,"replaceable":false}},{"Or":[438]},{"Pub":{"ty":116,"body":445,"replaceable":false}},{"Pub":{"ty":117,"body":449,"replaceable":false}},{"Or":[469]},{"Pub":{"ty":118,"body":474,"replaceable":false}},{"Pub":{"ty":119,"body":494,"replaceable":false}},{"Pub":{"ty":120,"body":504,"replaceable":false}},{"Pub":{"ty":121,"body":519,"replaceable":false}},{"Or":[520]},{"Or":[522]},{"Or":[524]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":527,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":531,"replaceable":false}},{"Pub":{"ty":122,"body":536,"replaceable":false}},{"Pub":{"ty":123,"body":543,"replaceable":false}},{"Pub":{"ty":124,"body":557,"replaceable":false}},{"Pub":{"ty":125,"body":583,"replaceable":false}},{"Pub":{"ty":126,"body":588,"replaceable":false}},{"Pub":{"ty":127,"body":592,"replaceable":false}},{"Pub":{"ty":128,"body":598,"replaceable":false}},{"Pub":{"ty":128,"body":600,"replaceable":false}},{"Or":[601,602,603,604,605,606,607,608,609,610]},{"Pub":{"ty":129,"body":612,"replaceable":false}},{"Pub":{"ty":130,"body":614,"replaceable":false}},{"Pub":{"ty":131,"body":622,"replaceable":false}},{"Pub":{"ty":132,"body":625,"replaceable":false}},{"Pub":{"ty":133,"body":629,"replaceable":false}},{"Pub":{"ty":134,"body":635,"replaceable":true}},{"PubReplace":{"ty":135,"body":639}},{"Pub":{"ty":136,"body":642,"replaceable":false}},{"Pub":{"ty":137,"body":651,"replaceable":false}},{"Pub":{"ty":138,"body":658,"replaceable":false}},{"Pub":{"ty":100,"body":664,"replaceable":false}},{"Pub":{"ty":139,"body":667,"replaceable":false}},{"Or":[668,669,670,671,672,673,674]},{"Pub":{"ty":140,"body":677,"replaceable":false}},{"Pub":{"ty":141,"body":683,"replaceable":true}},{"PubReplace":{"ty":142,"body":695}},{"PubReplace":{"ty":143,"body":707}},{"Pub":{"ty":144,"body":714,"replaceable":false}},{"Pub":{"ty":145,"body":721,"replaceable":false}},{"Pub":{"ty":146,"body":723,"replaceable":false}},{"Pub":{"ty":147,"body":727,"replaceable":false}},{"Pub":{"ty":148,"body":733,"replaceable":true}},{"PubReplace":{"ty":149,"body":737}},{"Pub":{"ty":150,"body":742,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,139],"prefixes":[{"ty":184,"op":121,"priority":999},{"ty":185,"op":771,"priority":999},{"ty":186,"op":772,"priority":999},{"ty":187,"op":773,"priority":999},{"ty":197,"op":141,"priority":2}],"infixes":[{"ty":177,"op":748,"priority":999,"has_rhs":false},{"ty":178,"op":757,"priority":999,"has_rhs":false},{"ty":180,"op":765,"priority":999,"has_rhs":false},{"ty":181,"op":766,"priority":999,"has_rhs":false},{"ty":182,"op":767,"priority":999,"has_rhs":false},{"ty":183,"op":770,"priority":12,"has_rhs":false},{"ty":188,"op":781,"priority":11,"has_rhs":true},{"ty":189,"op":787,"priority":10,"has_rhs":true},{"ty":190,"op":793,"priority":9,"has_rhs":true},{"ty":191,"op":799,"priority":8,"has_rhs":true},{"ty":192,"op":801,"priority":7,"has_rhs":true},{"ty":193,"op":807,"priority":6,"has_rhs":true},{"ty":194,"op":808,"priority":5,"has_rhs":true},{"ty":195,"op":810,"priority":4,"has_rhs":true},{"ty":196,"op":812,"priority":3,"has_rhs":true},{"ty":197,"op":813,"priority":2,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":false},{"ty":198,"op":837,"priority":1,"has_rhs":true}]}},{"Or":[838,840,842,844,846,848,850,852,854,856,858,860,862,864,866,868,870,872,874,876,878,880,882,884,886,888]},{"Or":[890]},{"Or":[894]},{"Pub":{"ty":152,"body":905,"replaceable":false}},{"Pub":{"ty":153,"body":913,"replaceable":true}},{"PubReplace":{"ty":154,"body":926}},{"Pub":{"ty":155,"body":933,"replaceable":false}},{"Pub":{"ty":156,"body":937,"replaceable":false}},{"Pub":{"ty":157,"body":944,"replaceable":true}},{"PubReplace":{"ty":158,"body":949}},{"Pub":{"ty":159,"body":962,"replaceable":false}},{"Pub":{"ty":160,"body":974,"replaceable":false}},{"Or":[982]},{"Pub":{"ty":161,"body":986,"replaceable":false}},{"Pub":{"ty":162,"body":995,"replaceable":false}},{"Pub":{"ty":163,"body":1005,"replaceable":false}},{"Or":[1006,1007,1008,1009]},{"Or":[1011,1013,1014,1015]},{"Pub":{"ty":164,"body":1024,"replaceable":false}},{"Pub":{"ty":165,"body":1027,"replaceable":false}},{"Pub":{"ty":166,"body":1030,"replaceable":false}},{"Pub":{"ty":167,"body":1041,"replaceable":false}},{"Pub":{"ty":168,"body":1051,"replaceable":false}},{"Pub":{"ty":169,"body":1055,"replaceable":false}},{"Or":[1061]},{"Or":[1063]},{"Pub":{"ty":170,"body":1067,"replaceable":false}},{"Pub":{"ty":171,"body":1072,"replaceable":false}},{"Or":[1075]},{"Pub":{"ty":172,"body":1080,"replaceable":false}},{"Pub":{"ty":173,"body":1090,"replaceable":false}},{"Or":[1096]},{"Pub":{"ty":174,"body":1099,"replaceable":false}},{"Pub":{"ty":175,"body":1101,"replaceable":false}},{"Pub":{"ty":176,"body":1103,"replaceable":false}},{"Pub":{"ty":177,"body":1111,"replaceable":false}},{"Pub":{"ty":178,"body":1122,"replaceable":false}},{"Or":[1126]},{"Pub":{"ty":179,"body":1128,"replaceable":false}},{"Pub":{"ty":180,"body":1138,"replaceable":false}},{"Pub":{"ty":181,"body":1141,"replaceable":false}},{"Pub":{"ty":182,"body":1144,"replaceable":false}},{"Pub":{"ty":183,"body":1149,"replaceable":false}},{"Pub":{"ty":184,"body":1151,"replaceable":false}},{"Or":[1157]},{"Pub":{"ty":185,"body":1160,"replaceable":false}},{"Pub":{"ty":186,"body":1163,"replaceable":false}},{"Pub":{"ty":187,"body":1166,"replaceable":false}},{"Pub":{"ty":188,"body":1176,"replaceable":false}},{"Pub":{"ty":189,"body":1184,"replaceable":false}},{"Pub":{"ty":190,"body":1192,"replaceable":false}},{"Or":[1196,1200]},{"Pub":{"ty":191,"body":1208,"replaceable":false}},{"Pub":{"ty":192,"body":1212,"replaceable":false}},{"Pub":{"ty":193,"body":1220,"replaceable":false}},{"Pub":{"ty":194,"body":1223,"replaceable":false}},{"Or":[1225,1227,1231,1235,1237,1239]},{"Pub":{"ty":195,"body":1243,"replaceable":false}},{"Pub":{"ty":196,"body":1247,"replaceable":false}},{"Pub":{"ty":197,"body":1250,"replaceable":false}},{"Pub":{"ty":197,"body":1252,"replaceable":false}},{"Pub":{"ty":197,"body":1254,"replaceable":false}},{"Pub":{"ty":197,"body":1258,"replaceable":false}},{"Or":[1260,1262]},{"Or":[1270]},{"Pub":{"ty":198,"body":1296,"replaceable":false}},{"Pub":{"ty":199,"body":1299,"replaceable":false}},{"Pub":{"ty":200,"body":1303,"replaceable":false}},{"Or":[1306]},{"Or":[1308]},{"Pub":{"ty":201,"body":1318,"replaceable":false}},{"Pub":{"ty":202,"body":1326,"replaceable":false}},{"Pub":{"ty":203,"body":1341,"replaceable":false}},{"Pub":{"ty":204,"body":1370,"replaceable":false}},{"Or":[1380]},{"Or":[1385]},{"Or":[1390]},{"Or":[1395]},{"Or":[1400]},{"Or":[1408]},{"Or":[1423]},{"And":[[1],null]},{"Or":[158]},{"WithSkip":[2,3]},{"Rep":160},{"And":[[161],null]},{"Token":11},{"And":[[163],null]},{"ContextualToken":[4,"union"]},{"And":[[165],null]},{"Token":16},{"And":[[167],null]},{"Token":12},{"And":[[169],null]},{"Token":13},{"And":[[171],null]},{"Token":17},{"And":[[173],null]},{"Token":29},{"And":[[175],null]},{"And":[[25],null]},{"Opt":36},{"And":[[146,178],null]},{"Or":[179]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[181,182,183,184,185,186,187,188,189]},{"Inject":[180,190]},{"And":[[191],null]},{"And":[[28],null]},{"Or":[192,193]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[197,5],null]},{"Or":[198]},{"Opt":199},{"And":[[200],null]},{"Or":[196,201]},{"And":[[38,202],null]},{"Token":60},{"Opt":204},{"And":[[205,5],null]},{"Or":[203,206]},{"Token":58},{"And":[[195,207,208],1]},{"Or":[209]},{"Token":67},{"And":[[211],null]},{"Call":[151,[[2,6]]]},{"Call":[152,[[3,213]]]},{"And":[[214],null]},{"Or":[212,215]},{"Token":18},{"And":[[217],null]},{"Token":92},{"Opt":48},{"And":[[219,220],1]},{"Or":[218,221]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[223,224,225,226,227],2]},{"Or":[228]},{"Token":21},{"Opt":230},{"Token":35},{"Opt":232},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[241],null]},{"Or":[240,242]},{"And":[[231,233,234,235,236,237,11,238,239,243],4]},{"Or":[244]},{"Token":51},{"And":[[246,49],null]},{"Token":7},{"Token":90},{"Opt":249},{"And":[[248,250],null]},{"Or":[251]},{"Opt":14},{"Call":[151,[[2,12]]]},{"And":[[253,254],null]},{"Or":[255]},{"Call":[153,[[4,256]]]},{"And":[[257],null]},{"Token":59},{"And":[[64,259,49],1]},{"Or":[260]},{"Token":59},{"And":[[262,49],null]},{"Or":[263]},{"Opt":264},{"And":[[64,265],null]},{"Or":[266]},{"And":[[121],null]},{"Token":27},{"And":[[269],null]},{"Or":[268,270]},{"Opt":271},{"Token":18},{"Token":59},{"And":[[274,49],null]},{"Or":[275]},{"Opt":276},{"Token":61},{"And":[[278],null]},"Eof",{"And":[[280],null]},{"Or":[279,281]},{"And":[[272,273,277,282],2]},{"Or":[283]},{"Token":11},{"And":[[285],null]},{"ContextualToken":[4,"union"]},{"And":[[287],null]},{"Or":[286,288]},{"Token":92},{"Opt":31},{"Call":[151,[[2,16]]]},{"Call":[152,[[3,292]]]},{"And":[[293],null]},{"Token":58},{"And":[[295],null]},{"Call":[151,[[2,17]]]},{"Call":[153,[[4,297]]]},{"Token":58},{"And":[[298,299],null]},{"Or":[294,296,300]},{"And":[[289,290,291,301],1]},{"Or":[302]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[304,305,306,49],2]},{"Or":[307]},{"Opt":36},{"And":[[309,49],null]},{"Or":[310]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[151,[[2,19]]]},{"Call":[152,[[3,315]]]},{"And":[[312,313,314,316],1]},{"Or":[317]},{"Token":92},{"Token":53},{"And":[[320,76],null]},{"Call":[151,[[2,17]]]},{"Call":[153,[[4,322]]]},{"And":[[323],null]},{"Call":[151,[[2,16]]]},{"Call":[152,[[3,325]]]},{"And":[[326],null]},{"Or":[321,324,327]},{"Opt":328},{"And":[[319,329],1]},{"Or":[330]},{"Token":13},{"Token":92},{"Token":58},{"And":[[334],null]},{"Call":[152,[[3,1]]]},{"And":[[336],null]},{"Or":[335,337]},{"And":[[332,333,338],1]},{"Or":[339]},{"Token":35},{"Opt":341},{"Token":17},{"Opt":31},{"Token":23},{"And":[[345,49],null]},{"Or":[346]},{"Opt":347},{"And":[[49,348],null]},{"Or":[349]},{"Opt":37},{"And":[[342,343,344,350,351,23],2]},{"Or":[352]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[146,354,355,356,357,358,359,23],3]},{"Or":[360]},{"Opt":36},{"And":[[146,362],null]},{"Or":[363]},{"Inject":[364,24]},{"And":[[365],null]},{"And":[[28],null]},{"Or":[366,367]},{"WithSkip":[25,368]},{"Rep":369},{"Call":[152,[[3,370]]]},{"And":[[371],null]},{"Or":[372]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[144],null]},{"Token":10},{"And":[[378],null]},{"Token":8},{"And":[[380],null]},{"Token":20},{"And":[[382],null]},{"Token":21},{"And":[[384],null]},{"Token":22},{"And":[[386],null]},{"Token":35},{"And":[[388],null]},{"Token":65},{"And":[[390],null]},{"Token":7},{"And":[[392],null]},{"Token":92},{"Token":82},{"And":[[394,395],null]},{"Or":[396]},{"And":[[397],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[402,49],null]},{"Or":[403]},{"Opt":404},{"Token":58},{"And":[[399,400,401,405,406],1]},{"Or":[407]},{"Token":21},{"And":[[409],null]},{"Token":22},{"And":[[411],null]},{"Or":[410,412]},{"Token":92},{"Token":59},{"Token":53},{"And":[[416,76],null]},{"Or":[417]},{"Opt":418},{"Token":58},{"And":[[413,414,415,49,419,420],1]},{"Or":[421]},{"And":[[148],null]},{"Token":58},{"And":[[149,424],null]},{"Or":[423,425]},{"Rep":30},{"Call":[152,[[3,427]]]},{"And":[[10,428],null]},{"Or":[429]},{"Opt":36},{"And":[[146,431],null]},{"Or":[432]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[434,435]},{"Inject":[433,436]},{"And":[[437],null]},{"Call":[151,[[2,35]]]},{"Call":[151,[[2,32]]]},{"And":[[439,440],null]},{"Or":[441]},{"Call":[154,[[5,442]]]},{"And":[[443],null]},{"Or":[444]},{"Token":92},{"Opt":33},{"And":[[446,447],1]},{"Or":[448]},{"Token":59},{"Token":73},{"And":[[451],null]},"Eof",{"And":[[453],null]},{"Token":61},{"And":[[455],null]},{"Token":39},{"And":[[457],null]},{"Token":36},{"And":[[459],null]},{"Or":[456,458,460]},{"Not":461},{"Not":462},{"And":[[463],null]},{"Or":[452,454,464]},{"And":[[34,465],1]},{"Or":[466]},{"Rep":467},{"And":[[450,468],null]},{"Token":87},{"And":[[470],null]},{"And":[[52],null]},{"And":[[63],null]},{"Or":[471,472,473]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[478],null]},"Eof",{"And":[[480],null]},{"Token":61},{"Not":482},{"Not":483},{"And":[[484],null]},{"Or":[479,481,485]},{"And":[[477,486],1]},{"Or":[487]},{"Rep":488},{"And":[[476,489],null]},{"Or":[490]},{"Opt":491},{"And":[[475,492],1]},{"Or":[493]},{"Token":10},{"Token":6},{"And":[[496],null]},{"Token":19},{"And":[[498],null]},{"Or":[497,499]},{"Call":[153,[[4,500]]]},{"Opt":501},{"And":[[495,502],null]},{"Or":[503]},{"Token":36},{"Token":61},{"And":[[506],null]},"Eof",{"And":[[508],null]},{"Token":39},{"Not":510},{"Not":511},{"And":[[512],null]},{"Or":[507,509,513]},{"And":[[49,33,514],null]},{"Or":[515]},{"Rep":516},{"And":[[505,517],1]},{"Or":[518]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[521],null]},{"Enter":[1,41]},{"And":[[523],null]},{"Token":60},{"And":[[525,45],null]},{"Or":[526]},{"Token":60},{"Opt":528},{"And":[[529,45],null]},{"Or":[530]},{"Token":60},{"And":[[532,45],null]},{"Or":[533]},{"And":[[41,534],null]},{"Or":[535]},{"Token":5},{"And":[[49,537,49],null]},{"Or":[538]},{"Call":[154,[[5,539]]]},{"Token":60},{"And":[[540,541,45],null]},{"Or":[542]},{"Token":92},{"And":[[544],null]},{"Token":18},{"And":[[546],null]},{"Token":19},{"And":[[548],null]},{"Or":[545,547,549]},{"And":[[46],null]},{"IsIn":3},{"And":[[552,47],null]},{"Or":[551,553]},{"Opt":554},{"And":[[550,555],null]},{"Or":[556]},{"IsIn":3},{"And":[[558],null]},{"IsIn":1},{"Token":60},{"And":[[560,561],null]},{"Or":[559,562]},{"Token":87},{"Call":[151,[[2,564]]]},{"Token":92},{"Token":53},{"And":[[566,567],null]},{"Or":[568]},{"Not":569},{"And":[[570,49],null]},{"Or":[571]},{"Call":[151,[[2,572]]]},{"Token":92},{"Token":53},{"And":[[574,575,49],null]},{"Or":[576]},{"Call":[151,[[2,577]]]},{"And":[[565,573,578],null]},{"Or":[579]},{"Call":[154,[[5,580]]]},{"And":[[563,581],null]},{"Or":[582]},{"Call":[151,[[2,49]]]},{"Call":[153,[[4,584]]]},{"Opt":9},{"And":[[585,586],null]},{"Or":[587]},{"Token":5},{"Token":92},{"And":[[589,590],null]},{"Or":[591]},{"Token":73},{"And":[[593,34],null]},{"Or":[594]},{"Rep":595},{"And":[[51,596],null]},{"Or":[597]},{"And":[[51],null]},{"Or":[599]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[57],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[61],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[611]},{"And":[[121,49],null]},{"Or":[613]},{"Token":67},{"Token":21},{"And":[[616],null]},{"Token":27},{"And":[[618],null]},{"Or":[617,619]},{"And":[[615,620,49],null]},{"Or":[621]},{"Token":81},{"And":[[623],null]},{"Or":[624]},{"Token":37},{"Token":38},{"And":[[626,627],null]},{"Or":[628]},{"Opt":58},{"And":[[49,630],null]},{"Or":[631]},{"Call":[153,[[4,632]]]},{"And":[[633],null]},{"Or":[634]},{"Token":61},{"Call":[151,[[2,49]]]},{"And":[[636,637],null]},{"Or":[638]},{"Token":82},{"And":[[640],null]},{"Or":[641]},{"Token":58},{"And":[[643,76],null]},{"Or":[644]},{"Opt":645},{"And":[[49,646],null]},{"Or":[647]},{"Call":[155,[[6,648]]]},{"And":[[649],null]},{"Or":[650]},{"Opt":10},{"Token":8},{"Call":[151,[[2,62]]]},{"Call":[153,[[4,654]]]},{"Opt":9},{"And":[[652,653,655,656],2]},{"Or":[657]},{"Token":59},{"And":[[64,659],null]},{"Or":[660]},{"Opt":661},{"And":[[662,49],null]},{"Or":[663]},{"Token":23},{"And":[[665,31,49],1]},{"Or":[666]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[675],null]},{"Or":[676]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[678,679]},{"Opt":680},{"And":[[40,681],null]},{"Or":[682]},{"Call":[151,[[2,64]]]},{"Token":63},{"Token":61},{"Opt":686},{"And":[[685,687],null]},{"Or":[688]},{"Opt":689},{"And":[[684,690],null]},{"Or":[691]},{"Call":[153,[[4,692]]]},{"And":[[693],null]},{"Or":[694]},{"Call":[151,[[2,69]]]},{"Token":63},{"Token":61},{"Opt":698},{"And":[[697,699],null]},{"Or":[700]},{"Opt":701},{"And":[[696,702],null]},{"Or":[703]},{"Call":[152,[[3,704]]]},{"And":[[705],null]},{"Or":[706]},{"Token":59},{"Not":708},{"And":[[70,709],null]},{"Token":92},{"Token":59},{"And":[[711,712,64],2]},{"Or":[710,713]},{"Token":28},{"Opt":715},{"Token":27},{"Opt":717},{"Token":92},{"And":[[716,718,719],null]},{"Or":[720]},{"And":[[80],null]},{"Or":[722]},{"Token":37},{"Token":38},{"And":[[724,725],null]},{"Or":[726]},{"Opt":74},{"And":[[64,728],null]},{"Or":[729]},{"Call":[153,[[4,730]]]},{"And":[[731],null]},{"Or":[732]},{"Token":61},{"Call":[151,[[2,64]]]},{"And":[[734,735],null]},{"Or":[736]},{"Token":77},{"Token":27},{"Opt":739},{"And":[[738,740,64],null]},{"Or":[741]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":745},{"And":[[743,744,746,114],null]},{"Or":[747]},{"IsIn":2},{"Not":78},{"And":[[749,750],null]},{"IsIn":2},{"Not":752},{"And":[[753],null]},{"Or":[751,754]},{"And":[[755,114],null]},{"Or":[756]},{"Token":62},{"Token":92},{"And":[[759],null]},{"Token":89},{"And":[[761],null]},{"Or":[760,762]},{"And":[[758,763],null]},{"Or":[764]},{"Call":[155,[[6,76]]]},{"Token":83},{"Token":5},{"And":[[768,50],null]},{"Or":[769]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[774],null]},{"Token":69},{"And":[[776],null]},{"Token":71},{"And":[[778],null]},{"Or":[775,777,779]},{"Call":[128,[[1,780]]]},{"Token":73},{"And":[[782],null]},{"Token":75},{"And":[[784],null]},{"Or":[783,785]},{"Call":[128,[[1,786]]]},{"ContextualToken":[45,"<<"]},{"And":[[788],null]},{"ContextualToken":[47,">>"]},{"And":[[790],null]},{"Or":[789,791]},{"Call":[128,[[1,792]]]},{"ContextualToken":[49,"&&"]},{"Not":794},{"Token":77},{"And":[[795,796],null]},{"Or":[797]},{"Call":[128,[[1,798]]]},{"Token":84},{"Call":[128,[[1,800]]]},{"ContextualToken":[50,"||"]},{"Not":802},{"Token":79},{"And":[[803,804],null]},{"Or":[805]},{"Call":[128,[[1,806]]]},{"Call":[128,[[1,133]]]},{"ContextualToken":[49,"&&"]},{"Call":[128,[[1,809]]]},{"ContextualToken":[50,"||"]},{"Call":[128,[[1,811]]]},{"Call":[128,[[1,141]]]},{"Token":53},{"And":[[814],null]},{"Token":74},{"And":[[816],null]},{"Token":76},{"And":[[818],null]},{"Token":68},{"And":[[820],null]},{"Token":70},{"And":[[822],null]},{"Token":72},{"And":[[824],null]},{"Token":78},{"And":[[826],null]},{"Token":80},{"And":[[828],null]},{"Token":85},{"And":[[830],null]},{"ContextualToken":[48,">>="]},{"And":[[832],null]},{"ContextualToken":[46,"<<="]},{"And":[[834],null]},{"Or":[815,817,819,821,823,825,827,829,831,833,835]},{"Call":[128,[[1,836]]]},{"And":[[80],null]},{"Token":92},{"And":[[839],null]},{"Token":87},{"And":[[841],null]},{"Token":18},{"And":[[843],null]},{"Token":19},{"And":[[845],null]},{"Token":41},{"And":[[847],null]},{"Token":60},{"And":[[849],null]},{"Token":37},{"And":[[851],null]},{"Token":43},{"And":[[853],null]},{"Token":79},{"And":[[855],null]},{"Token":31},{"And":[[857],null]},{"Token":39},{"And":[[859],null]},{"Token":14},{"And":[[861],null]},{"Token":25},{"And":[[863],null]},{"Token":24},{"And":[[865],null]},{"Token":23},{"And":[[867],null]},{"Token":30},{"And":[[869],null]},{"Token":26},{"And":[[871],null]},{"Token":32},{"And":[[873],null]},{"Token":33},{"And":[[875],null]},{"Token":77},{"And":[[877],null]},{"Token":67},{"And":[[879],null]},{"Token":75},{"And":[[881],null]},{"Token":82},{"And":[[883],null]},{"Token":63},{"And":[[885],null]},{"Token":64},{"And":[[887],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[889],null]},{"Var":0},{"Exit":[2,891]},{"Exit":[0,892]},{"And":[[893],null]},{"Token":89},{"And":[[895],null]},{"Token":90},{"And":[[897],null]},{"Token":91},{"And":[[899],null]},{"Token":86},{"And":[[901],null]},{"Token":88},{"And":[[903],null]},{"Or":[896,898,900,902,904]},{"Token":92},{"Token":82},{"And":[[906,907],null]},{"Or":[908]},{"Not":909},{"Opt":82},{"And":[[910,40,911],null]},{"Or":[912]},{"IsIn":0},{"Not":914},{"Call":[151,[[2,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[917,918],null]},{"Or":[919]},{"Opt":920},{"And":[[916,921],null]},{"Or":[922]},{"Call":[152,[[3,923]]]},{"And":[[915,924],null]},{"Or":[925]},{"Token":92},{"Token":59},{"And":[[928,76],null]},{"Or":[929]},{"Opt":930},{"And":[[927,931],1]},{"Or":[932]},{"Token":37},{"Token":38},{"And":[[934,935],null]},{"Or":[936]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[938,939],null]},{"Or":[940]},{"Call":[153,[[4,941]]]},{"And":[[942],null]},{"Or":[943]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[151,[[2,946]]]},{"And":[[945,947],null]},{"Or":[948]},{"Token":58},{"And":[[950,76],null]},{"Token":61},{"Call":[151,[[2,76]]]},{"And":[[952,953],null]},{"Or":[951,954]},{"Opt":955},{"And":[[76,956],null]},{"Or":[957]},{"Call":[79,[[0,958]]]},{"Call":[155,[[6,959]]]},{"And":[[960],null]},{"Or":[961]},{"Token":26},{"Opt":963},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[968,49,92],null]},{"Call":[79,[[0,76]]]},{"And":[[970],null]},{"Or":[969,971]},{"And":[[964,965,966,967,972],null]},{"Or":[973]},{"Token":61},{"And":[[975],null]},{"Token":79},{"Not":977},{"Not":978},{"And":[[979],null]},{"Or":[976,980]},{"And":[[13,981],1]},{"Token":31},{"Opt":76},{"And":[[983,984],null]},{"Or":[985]},{"Token":33},{"And":[[987],null]},{"Token":32},{"And":[[989],null]},{"Or":[988,990]},{"Token":87},{"Opt":992},{"And":[[991,993],null]},{"Or":[994]},{"Token":35},{"Opt":996},{"WithSkip":[94,93]},{"Rep":998},{"Call":[152,[[3,999]]]},{"And":[[997,1000],null]},{"Or":[1001]},{"Call":[79,[[0,1002]]]},{"And":[[1003],null]},{"Or":[1004]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1010],null]},{"Token":58},{"And":[[1012],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1018,76],1]},{"Or":[1019]},{"Opt":1020},{"Token":58},{"And":[[1016,64,1017,1021,1022],1]},{"Or":[1023]},{"Token":59},{"And":[[1025,49],null]},{"Or":[1026]},{"Token":58},{"And":[[1028],null]},{"Or":[1029]},{"And":[[78],null]},"Eof",{"And":[[1032],null]},{"Token":58},{"And":[[1034],null]},{"Or":[1031,1033,1035]},{"And":[[76,1036],1]},{"Or":[1037]},{"Enter":[2,1038]},{"And":[[1039],null]},{"Or":[1040]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1044,1045]},{"And":[[1043,1046],null]},{"Or":[1047]},{"Opt":1048},{"And":[[1042,101,92,1049],1]},{"Or":[1050]},{"Opt":105},{"Token":25},{"And":[[1052,1053,101,92],2]},{"Or":[1054]},{"Token":9},{"Token":53},{"And":[[1056,64,1057],1]},{"Or":[1058]},{"Opt":1059},{"And":[[1060,102],1]},{"Enter":[0,76]},{"And":[[1062],null]},{"Opt":105},{"Token":24},{"And":[[1064,1065,92],2]},{"Or":[1066]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1068,1069,64,1070,102,92],2]},{"Or":[1071]},{"Token":87},{"Token":59},{"And":[[1073,1074],null]},{"Token":30},{"Rep":107},{"Call":[152,[[3,1077]]]},{"And":[[1076,102,1078],1]},{"Or":[1079]},{"Token":52},{"Enter":[2,76]},{"Token":61},{"And":[[1083],null]},"Eof",{"And":[[1085],null]},{"And":[[78],null]},{"Or":[1084,1086,1087]},{"And":[[108,1081,1082,1088],1]},{"Or":[1089]},{"Token":79},{"And":[[1091,64],null]},{"Or":[1092]},{"Rep":1093},{"Opt":109},{"And":[[64,1094,1095],null]},{"Token":14},{"And":[[1097,76],null]},{"Or":[1098]},{"And":[[148],null]},{"Or":[1100]},{"And":[[149],null]},{"Or":[1102]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1106},{"And":[[1104,1105,1107,114],null]},{"Or":[1108]},{"And":[[76,1109],null]},{"Or":[1110]},{"IsIn":2},{"Not":78},{"And":[[1112,1113],null]},{"IsIn":2},{"Not":1115},{"And":[[1116],null]},{"Or":[1114,1117]},{"And":[[1118,114],null]},{"Or":[1119]},{"And":[[76,1120],null]},{"Or":[1121]},{"Call":[151,[[2,115]]]},{"Call":[153,[[4,1123]]]},{"Call":[79,[[0,1124]]]},{"And":[[1125],null]},{"And":[[76],null]},{"Or":[1127]},{"Token":62},{"Token":92},{"And":[[1130],null]},{"Token":89},{"And":[[1132],null]},{"Or":[1131,1133]},{"And":[[1129,1134],null]},{"Or":[1135]},{"And":[[76,1136],null]},{"Or":[1137]},{"Call":[155,[[6,76]]]},{"And":[[76,1139],null]},{"Or":[1140]},{"Token":83},{"And":[[76,1142],null]},{"Or":[1143]},{"Token":5},{"And":[[1145,50],null]},{"Or":[1146]},{"And":[[76,1147],null]},{"Or":[1148]},{"And":[[121,76],null]},{"Or":[1150]},{"Token":77},{"Token":87},{"Opt":1153},{"Token":27},{"Opt":1155},{"And":[[1152,1154,1156],null]},{"Token":67},{"And":[[1158,76],null]},{"Or":[1159]},{"Token":75},{"And":[[1161,76],null]},{"Or":[1162]},{"Token":82},{"And":[[1164,76],null]},{"Or":[1165]},{"Token":67},{"And":[[1167],null]},{"Token":69},{"And":[[1169],null]},{"Token":71},{"And":[[1171],null]},{"Or":[1168,1170,1172]},{"Call":[128,[[1,1173]]]},{"And":[[76,1174,76],null]},{"Or":[1175]},{"Token":73},{"And":[[1177],null]},{"Token":75},{"And":[[1179],null]},{"Or":[1178,1180]},{"Call":[128,[[1,1181]]]},{"And":[[76,1182,76],null]},{"Or":[1183]},{"ContextualToken":[45,"<<"]},{"And":[[1185],null]},{"ContextualToken":[47,">>"]},{"And":[[1187],null]},{"Or":[1186,1188]},{"Call":[128,[[1,1189]]]},{"And":[[76,1190,76],null]},{"Or":[1191]},{"IsIn":2},{"Not":78},{"Var":1},{"And":[[1193,1194,1195],null]},{"IsIn":2},{"Not":1197},{"Var":1},{"And":[[1198,1199],null]},{"ContextualToken":[49,"&&"]},{"Not":1201},{"Token":77},{"And":[[1202,1203],null]},{"Or":[1204]},{"Call":[128,[[1,1205]]]},{"And":[[76,1206,76],null]},{"Or":[1207]},{"Token":84},{"Call":[128,[[1,1209]]]},{"And":[[76,1210,76],null]},{"Or":[1211]},{"ContextualToken":[50,"||"]},{"Not":1213},{"Token":79},{"And":[[1214,1215],null]},{"Or":[1216]},{"Call":[128,[[1,1217]]]},{"And":[[76,1218,76],null]},{"Or":[1219]},{"Call":[128,[[1,133]]]},{"And":[[76,1221,76],null]},{"Or":[1222]},{"Token":54},{"And":[[1224],null]},{"Token":55},{"And":[[1226],null]},{"Token":41},{"Token":57},{"Not":1229},{"And":[[1228,1230],null]},{"Token":42},{"Token":56},{"Not":1233},{"And":[[1232,1234],null]},{"Token":57},{"And":[[1236],null]},{"Token":56},{"And":[[1238],null]},{"ContextualToken":[49,"&&"]},{"Call":[128,[[1,1240]]]},{"And":[[76,1241,76],null]},{"Or":[1242]},{"ContextualToken":[50,"||"]},{"Call":[128,[[1,1244]]]},{"And":[[76,1245,76],null]},{"Or":[1246]},{"Call":[128,[[1,141]]]},{"And":[[76,1248,76],null]},{"Or":[1249]},{"And":[[141,76],null]},{"Or":[1251]},{"And":[[76,140],null]},{"Or":[1253]},{"Token":63},{"Not":77},{"And":[[1255,1256],null]},{"Or":[1257]},{"Token":63},{"And":[[1259],null]},{"Token":64},{"And":[[1261],null]},{"Not":77},{"Not":1263},{"Token":39},{"IsIn":0},{"And":[[1265,1266],null]},{"Or":[1267]},{"Not":1268},{"And":[[140,1264,1269],null]},{"Token":53},{"And":[[1271],null]},{"Token":74},{"And":[[1273],null]},{"Token":76},{"And":[[1275],null]},{"Token":68},{"And":[[1277],null]},{"Token":70},{"And":[[1279],null]},{"Token":72},{"And":[[1281],null]},{"Token":78},{"And":[[1283],null]},{"Token":80},{"And":[[1285],null]},{"Token":85},{"And":[[1287],null]},{"ContextualToken":[48,">>="]},{"And":[[1289],null]},{"ContextualToken":[46,"<<="]},{"And":[[1291],null]},{"Or":[1272,1274,1276,1278,1280,1282,1284,1286,1288,1290,1292]},{"Call":[128,[[1,1293]]]},{"And":[[76,1294,76],null]},{"Or":[1295]},{"Token":65},{"And":[[1297,145],null]},{"Or":[1298]},{"Token":65},{"Token":82},{"And":[[1300,1301,145],null]},{"Or":[1302]},{"Call":[151,[[2,147]]]},{"Call":[155,[[6,1304]]]},{"And":[[1305],null]},{"Rep":143},{"And":[[1307],null]},{"Token":92},{"Token":53},{"And":[[1310,76],null]},{"Call":[151,[[2,147]]]},{"Call":[153,[[4,1312]]]},{"And":[[1313],null]},{"Or":[1311,1314]},{"Opt":1315},{"And":[[1309,1316],1]},{"Or":[1317]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1321},{"Rep":150},{"Call":[152,[[3,1323]]]},{"And":[[1319,1320,1322,1324],null]},{"Or":[1325]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1329},{"Token":37},{"Rep":150},{"Token":38},{"And":[[1331,1332,1333],null]},{"Token":43},{"Rep":150},{"Token":44},{"And":[[1335,1336,1337],null]},{"Or":[1334,1338]},{"And":[[1327,1328,1330,1339],null]},{"Or":[1340]},{"Token":37},{"And":[[1342],null]},{"Token":38},{"And":[[1344],null]},{"Token":39},{"And":[[1346],null]},{"Token":40},{"And":[[1348],null]},{"Token":43},{"And":[[1350],null]},{"Token":44},{"And":[[1352],null]},{"Or":[1343,1345,1347,1349,1351,1353]},{"Not":1354},"Any",{"And":[[1355,1356],null]},{"Token":37},{"Rep":150},{"Token":38},{"And":[[1358,1359,1360],null]},{"Token":43},{"Rep":150},{"Token":44},{"And":[[1362,1363,1364],null]},{"Token":39},{"Rep":150},{"Token":40},{"And":[[1366,1367,1368],null]},{"Or":[1357,1361,1365,1369]},{"Var":2},"Eof",{"And":[[1372],null]},{"Token":61},{"And":[[1374],null]},{"Or":[1373,1375]},{"And":[[1371,1376],1]},{"Or":[1377]},{"Rep":1378},{"And":[[1379],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[156,[[7,1381],[8,1382],[9,1383]]]},{"And":[[1384],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[156,[[7,1386],[8,1387],[9,1388]]]},{"And":[[1389],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[156,[[7,1391],[8,1392],[9,1393]]]},{"And":[[1394],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[156,[[7,1396],[8,1397],[9,1398]]]},{"And":[[1399],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[157,[[10,1402],[11,1403]]]},{"Var":9},{"Layer":[1404,1405]},{"Var":8},{"And":[[1401,1406,1407],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[157,[[10,1410],[11,1411]]]},{"Var":11},{"And":[[1409,1412,1413],1]},{"Var":11},{"Not":1415},"Any",{"And":[[1416,1417],null]},{"Or":[1418]},{"And":[[1419],null]},{"Or":[1414,1420]},{"Rep":1421},{"And":[[1422],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From 0f6607b84dd568760381c74d0f6b1820c2f3a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:42 +0000
Subject: [PATCH 12/31] fix: incomplete definitions in a grammar do not crash
 the analysis and the generator

---
 fall/gen/src/generate/codegen.rs              | 49 ++++++++++---------
 .../src/analysis/query/ast_node_traits.rs     |  2 +-
 .../fall/src/analysis/query/resolve_method.rs |  4 +-
 .../analysis/query/resolve_pratt_variant.rs   | 13 +++--
 lang/fall/src/ast_ext.rs                      |  8 +--
 lang/fall/src/editor/references/mod.rs        |  4 +-
 lang/fall/syntax/src/ast_ext.rs               |  8 +--
 lang/fall/syntax/src/fall.fall                | 14 +++---
 lang/fall/syntax/src/fall.rs                  | 28 +++++------
 9 files changed, 69 insertions(+), 61 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 28a5d8b..6e0cce3 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -72,16 +72,17 @@ impl<'a, 'f> Codegen<'a, 'f> {
 
         context.insert("lex_rules", &lex_rules);
 
-        let verbatim = self.file().verbatim_def().map(|v| v.contents());
+        let verbatim = self.file().verbatim_def().and_then(|v| v.contents());
         context.insert("verbatim", &verbatim);
         context.insert("has_whitespace_binder", &verbatim.map(|t| t.contains("whitespace_binder")).unwrap_or(false));
 
 
         if let Some(ast) = self.file().ast_def() {
             context.insert("ast_nodes", &ast.ast_nodes().map(|node| {
+                let name = node.name().ok_or(format_err!("Node without a name"))?;
                 Ok(CtxAstNode {
-                    struct_name: camel(node.name()),
-                    node_type_name: scream(node.name()),
+                    struct_name: camel(name),
+                    node_type_name: scream(name),
                     methods: node.methods()
                         .map(|method| self.gen_method(method))
                         .collect::<Result<Vec<CtxMethod>>>()?,
@@ -89,15 +90,17 @@ impl<'a, 'f> Codegen<'a, 'f> {
             }).collect::<Result<Vec<_>>>()?);
 
             context.insert("ast_classes", &ast.ast_classes().map(|class| {
-                CtxAstClass {
-                    enum_name: camel(class.name()),
+                let name = class.name().ok_or(format_err!("Class without a name"))?;
+                Ok(CtxAstClass {
+                    enum_name: camel(name),
                     variants: class.variants().map(|variant| (scream(variant), camel(variant))).collect(),
-                }
-            }).collect::<Vec<_>>());
+                })
+            }).collect::<Result<Vec<_>>>()?);
 
             context.insert("ast_traits", &ast.ast_traits().map(|trait_| {
+                let name = trait_.name().ok_or(format_err!("Trait without a name"))?;
                 Ok(CtxAstTrait {
-                    trait_name: camel(trait_.name()),
+                    trait_name: camel(name),
                     methods: trait_.methods()
                         .map(|method| self.gen_method(method))
                         .collect::<Result<Vec<CtxMethod>>>()?,
@@ -105,7 +108,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                         .filter(|&node| {
                             self.analysis.ast_node_traits(node).contains(&trait_)
                         })
-                        .map(|node| camel(node.name()))
+                        .filter_map(|node| node.name().map(camel))
                         .collect(),
                 })
             }).collect::<Result<Vec<_>>>()?);
@@ -149,7 +152,9 @@ impl<'a, 'f> Codegen<'a, 'f> {
     }
 
     fn gen_rule(&mut self, rule: SynRule<'f>) -> Result<dst::Expr> {
-        let body = match (rule.is_pratt(), rule.body()) {
+        let body = rule.body()
+            .ok_or(format_err!("Rule without a body: {}", rule.node().text()))?;
+        let body = match (rule.is_pratt(), body) {
             (true, Expr::BlockExpr(block)) => {
                 let pratt = dst::Expr::Pratt(Box::new(self.gen_pratt(block)?));
                 self.push_expr(pratt)
@@ -367,24 +372,24 @@ impl<'a, 'f> Codegen<'a, 'f> {
             }
             MethodKind::NodeAccessor(kind, arity) => {
                 match (kind, arity) {
-                    (ChildKind::AstNode(n), Arity::Single) =>
-                        (format!("{}<'f>", camel(n.name())),
+                    (ChildKind::AstNode(_), Arity::Single) =>
+                        (format!("{}<'f>", camel(method.selector().child())),
                          "rt::AstChildren::new(self.node().children()).next().unwrap()".to_owned()),
-                    (ChildKind::AstNode(n), Arity::Optional) =>
-                        (format!("Option<{}<'f>>", camel(n.name())),
+                    (ChildKind::AstNode(_), Arity::Optional) =>
+                        (format!("Option<{}<'f>>", camel(method.selector().child())),
                          "rt::AstChildren::new(self.node().children()).next()".to_owned()),
-                    (ChildKind::AstNode(n), Arity::Many) =>
-                        (format!("rt::AstChildren<'f, {}<'f>>", camel(n.name())),
+                    (ChildKind::AstNode(_), Arity::Many) =>
+                        (format!("rt::AstChildren<'f, {}<'f>>", camel(method.selector().child())),
                          "rt::AstChildren::new(self.node().children())".to_owned()),
 
-                    (ChildKind::AstClass(n), Arity::Single) =>
-                        (format!("{}<'f>", camel(n.name())),
+                    (ChildKind::AstClass(_), Arity::Single) =>
+                        (format!("{}<'f>", camel(method.selector().child())),
                          "rt::AstChildren::new(self.node().children()).next().unwrap()".to_owned()),
-                    (ChildKind::AstClass(n), Arity::Optional) =>
-                        (format!("Option<{}<'f>>", camel(n.name())),
+                    (ChildKind::AstClass(_), Arity::Optional) =>
+                        (format!("Option<{}<'f>>", camel(method.selector().child())),
                          "rt::AstChildren::new(self.node().children()).next()".to_owned()),
-                    (ChildKind::AstClass(n), Arity::Many) =>
-                        (format!("rt::AstChildren<'f, {}<'f>>", camel(n.name())),
+                    (ChildKind::AstClass(_), Arity::Many) =>
+                        (format!("rt::AstChildren<'f, {}<'f>>", camel(method.selector().child())),
                          "rt::AstChildren::new(self.node().children())".to_owned()),
 
                     (ChildKind::Token(lex_rule), arity) => {
diff --git a/lang/fall/src/analysis/query/ast_node_traits.rs b/lang/fall/src/analysis/query/ast_node_traits.rs
index bb9ca17..f6ba9f5 100644
--- a/lang/fall/src/analysis/query/ast_node_traits.rs
+++ b/lang/fall/src/analysis/query/ast_node_traits.rs
@@ -9,7 +9,7 @@ use crate::syntax::{AstTraitDef, COLON, IDENT};
 impl<'f> db::OnceQExecutor<'f> for super::AstNodeTraits<'f> {
     fn execute(self, db: &DB<'f>, d: &mut DiagnosticSink) -> Arc<Vec<AstTraitDef<'f>>> {
         let traits: HashMap<Text, AstTraitDef> = db.file().ast_def().map(|ast| {
-            ast.ast_traits().map(|trait_| (trait_.name(), trait_)).collect()
+            ast.ast_traits().filter_map(|trait_| trait_.name().map(|name| (name, trait_))).collect()
         }).unwrap_or_default();
 
         let refs = self.0.node().children()
diff --git a/lang/fall/src/analysis/query/resolve_method.rs b/lang/fall/src/analysis/query/resolve_method.rs
index 4763681..72bb135 100644
--- a/lang/fall/src/analysis/query/resolve_method.rs
+++ b/lang/fall/src/analysis/query/resolve_method.rs
@@ -29,10 +29,10 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolveMethod<'f> {
 
 fn child_kind<'f>(file: FallFile<'f>, selector: AstSelector<'f>) -> Option<ChildKind<'f>> {
     let ast_def = file.ast_def()?;
-    if let Some(ast) = ast_def.ast_nodes().find(|a| a.name() == selector.child()) {
+    if let Some(ast) = ast_def.ast_nodes().find(|a| a.name() == Some(selector.child())) {
         return Some(ChildKind::AstNode(ast));
     }
-    if let Some(class) = ast_def.ast_classes().find(|c| c.name() == selector.child()) {
+    if let Some(class) = ast_def.ast_classes().find(|c| c.name() == Some(selector.child())) {
         return Some(ChildKind::AstClass(class));
     }
     if let Some(lex_rule) = file.tokenizer_def().and_then(|td| td.lex_rules().find(|r| r.node_type() == selector.child())) {
diff --git a/lang/fall/src/analysis/query/resolve_pratt_variant.rs b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
index 476e9fa..16477e4 100644
--- a/lang/fall/src/analysis/query/resolve_pratt_variant.rs
+++ b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
@@ -28,14 +28,17 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
             }
         };
 
+        let body = rule.body();
+
         if kind == "atom" {
             if priority.is_some() {
                 d.error(name_ident, "Atom rules don't have priority")
             }
-            return Some(PratVariant::Atom(rule.body()));
+            return body.map(PratVariant::Atom);
         }
 
-        let args = match rule.body() {
+        let body = body?;
+        let args = match body {
             Expr::BlockExpr(block) => match block.alts().collect_tuple() {
                 Some((alt, )) => match alt {
                     Expr::SeqExpr(args) => args.parts(),
@@ -61,7 +64,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Postfix rule requires a single expression and an operation"
                     );
                     return None;
@@ -75,7 +78,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Prefix rule requires an operation and a single expression"
                     );
                     return None;
@@ -88,7 +91,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     ),
                     (None, _) => {
                         d.error(
-                            rule.body().node(),
+                            body.node(),
                             "Binary expression requires a left hand side expression, an operator \
                              and a right hand side expression"
                         );
diff --git a/lang/fall/src/ast_ext.rs b/lang/fall/src/ast_ext.rs
index 18294f4..e6a2234 100644
--- a/lang/fall/src/ast_ext.rs
+++ b/lang/fall/src/ast_ext.rs
@@ -111,8 +111,8 @@ impl<'f> SynRule<'f> {
 }
 
 impl<'f> VerbatimDef<'f> {
-    pub fn contents(&self) -> Text<'f> {
-        lit_body(self.literal_string()).trim()
+    pub fn contents(&self) -> Option<Text<'f>> {
+        self.literal_string().map(|s| lit_body(s).trim())
     }
 }
 
@@ -123,8 +123,8 @@ impl<'f> TestDef<'f> {
 }
 
 impl<'f> AstClassDef<'f> {
-    pub fn name(&self) -> Text<'f> {
-        child_of_type(self.node(), IDENT).unwrap().text()
+    pub fn name(&self) -> Option<Text<'f>> {
+        child_of_type(self.node(), IDENT).map(|it| it.text())
     }
 
     pub fn variants<'a>(&'a self) -> Box<Iterator<Item=Text<'f>> + 'a> {
diff --git a/lang/fall/src/editor/references/mod.rs b/lang/fall/src/editor/references/mod.rs
index 2473fe5..27ac78b 100644
--- a/lang/fall/src/editor/references/mod.rs
+++ b/lang/fall/src/editor/references/mod.rs
@@ -110,13 +110,13 @@ impl<'f> From<Parameter<'f>> for Declaration<'f> {
 
 impl<'f> From<AstNodeDef<'f>> for Declaration<'f> {
     fn from(rule: AstNodeDef<'f>) -> Self {
-        Declaration::with_name_ident(rule.node(), Some(rule.name_ident()))
+        Declaration::with_name_ident(rule.node(), rule.name_ident())
     }
 }
 
 impl<'f> From<AstClassDef<'f>> for Declaration<'f> {
     fn from(rule: AstClassDef<'f>) -> Self {
-        Declaration::with_name_ident(rule.node(), Some(rule.name_ident()))
+        Declaration::with_name_ident(rule.node(), rule.name_ident())
     }
 }
 
diff --git a/lang/fall/syntax/src/ast_ext.rs b/lang/fall/syntax/src/ast_ext.rs
index 2f1e0bb..f39baa2 100644
--- a/lang/fall/syntax/src/ast_ext.rs
+++ b/lang/fall/syntax/src/ast_ext.rs
@@ -111,8 +111,8 @@ impl<'f> SynRule<'f> {
 }
 
 impl<'f> VerbatimDef<'f> {
-    pub fn contents(&self) -> Text<'f> {
-        lit_body(self.literal_string()).trim()
+    pub fn contents(&self) -> Option<Text<'f>> {
+        self.literal_string().map(|s| lit_body(s).trim())
     }
 }
 
@@ -123,8 +123,8 @@ impl<'f> TestDef<'f> {
 }
 
 impl<'f> AstClassDef<'f> {
-    pub fn name(&self) -> Text<'f> {
-        child_of_type(self.node(), IDENT).unwrap().text()
+    pub fn name(&self) -> Option<Text<'f>> {
+        child_of_type(self.node(), IDENT).map(|it| it.text())
     }
 
     pub fn variants<'a>(&'a self) -> Box<dyn Iterator<Item=Text<'f>> + 'a> {
diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index 5f26d7c..ec3725c 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -325,7 +325,7 @@ ast {
     attributes attributes?
     name_ident ident?
     name ident?.text
-    body expr
+    body expr?
     parameters parameters?
   }
 
@@ -349,7 +349,7 @@ ast {
   node attribute_value { }
 
   node verbatim_def {
-    literal_string hash_string.text
+    literal_string hash_string?.text
   }
 
   node ast_def {
@@ -359,19 +359,19 @@ ast {
   }
 
   node ast_node_def {
-    name_ident ident
-    name ident.text
+    name_ident ident?
+    name ident?.text
     methods method_def*
   }
 
   node ast_trait_def {
-    name_ident ident
-    name ident.text
+    name_ident ident?
+    name ident?.text
     methods method_def*
   }
 
   node ast_class_def {
-    name_ident ident
+    name_ident ident?
   }
 
   node method_def {
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index 6929f7e..6739a39 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -302,8 +302,8 @@ impl<'f> SynRule<'f> {
     pub fn name(&self) -> Option<rt::Text<'f>> {
         rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
-    pub fn body(&self) -> Expr<'f> {
-        rt::AstChildren::new(self.node().children()).next().unwrap()
+    pub fn body(&self) -> Option<Expr<'f>> {
+        rt::AstChildren::new(self.node().children()).next()
     }
     pub fn parameters(&self) -> Option<Parameters<'f>> {
         rt::AstChildren::new(self.node().children()).next()
@@ -449,8 +449,8 @@ impl<'f> rt::AstNode<'f> for VerbatimDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> VerbatimDef<'f> {
-    pub fn literal_string(&self) -> rt::Text<'f> {
-        rt::child_of_type_exn(self.node(), HASH_STRING).text()
+    pub fn literal_string(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), HASH_STRING).map(|n| n.text())
     }
 }
 impl<'f> ::std::fmt::Debug for VerbatimDef<'f> {
@@ -503,11 +503,11 @@ impl<'f> rt::AstNode<'f> for AstNodeDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> AstNodeDef<'f> {
-    pub fn name_ident(&self) -> rt::Node<'f> {
-        self.node().children().find(|n| n.ty() == IDENT).unwrap()
+    pub fn name_ident(&self) -> Option<rt::Node<'f>> {
+        self.node().children().find(|n| n.ty() == IDENT)
     }
-    pub fn name(&self) -> rt::Text<'f> {
-        rt::child_of_type_exn(self.node(), IDENT).text()
+    pub fn name(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
     pub fn methods(&self) -> rt::AstChildren<'f, MethodDef<'f>> {
         rt::AstChildren::new(self.node().children())
@@ -533,11 +533,11 @@ impl<'f> rt::AstNode<'f> for AstTraitDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> AstTraitDef<'f> {
-    pub fn name_ident(&self) -> rt::Node<'f> {
-        self.node().children().find(|n| n.ty() == IDENT).unwrap()
+    pub fn name_ident(&self) -> Option<rt::Node<'f>> {
+        self.node().children().find(|n| n.ty() == IDENT)
     }
-    pub fn name(&self) -> rt::Text<'f> {
-        rt::child_of_type_exn(self.node(), IDENT).text()
+    pub fn name(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
     pub fn methods(&self) -> rt::AstChildren<'f, MethodDef<'f>> {
         rt::AstChildren::new(self.node().children())
@@ -563,8 +563,8 @@ impl<'f> rt::AstNode<'f> for AstClassDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> AstClassDef<'f> {
-    pub fn name_ident(&self) -> rt::Node<'f> {
-        self.node().children().find(|n| n.ty() == IDENT).unwrap()
+    pub fn name_ident(&self) -> Option<rt::Node<'f>> {
+        self.node().children().find(|n| n.ty() == IDENT)
     }
 }
 impl<'f> ::std::fmt::Debug for AstClassDef<'f> {
-- 
2.43.0


From 160d883200a276d158065ee8031265abb04e1f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 13/31] fix: the generator reports grammars it cannot translate
 instead of panicking

---
 fall/gen/src/generate/codegen.rs | 17 +++++++++++------
 fall/gen/src/util.rs             |  8 +++++++-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 6e0cce3..7caff7f 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -189,7 +189,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 assert_eq!(self.expressions.len() - 1, body.0 as usize);
                 self.expressions.pop().unwrap()
             }
-            _ => unreachable!(),
+            (None, true, _) => return Err(format_err!("Only public rules can replace: {}", rule.node().text())),
         };
 
         Ok(body)
@@ -208,7 +208,10 @@ impl<'a, 'f> Codegen<'a, 'f> {
 
             Expr::SeqExpr(seq) => {
                 fn is_commit(part: Expr) -> bool {
-                    part.node().text() == "<commit>"
+                    match part {
+                        Expr::CallExpr(call) => call.fn_name() == "commit",
+                        _ => false,
+                    }
                 }
                 let commit = seq.parts().position(is_commit);
                 let parts = seq.parts()
@@ -279,9 +282,11 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             .collect::<Result<Vec<_>>>()?,
                     ),
                     CallKind::PrevIs(tokens) => dst::Expr::PrevIs(
-                        tokens.iter().map(|&r| self.syn_rule_ty(r).unwrap()).collect()
+                        tokens.iter()
+                            .map(|&r| self.syn_rule_ty(r).ok_or(format_err!("Bad <prev_is> argument")))
+                            .collect::<Result<Vec<_>>>()?
                     ),
-                    CallKind::Commit => panic!("Should be handled specially"),
+                    CallKind::Commit => return Err(format_err!("<commit> outside of a sequence")),
                 }
             }
             Expr::OptExpr(opt_expr) => dst::Expr::Opt(self.gen_expr(opt_expr.expr())?),
@@ -367,7 +372,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                         ("Option<rt::Text<'f>>".to_owned(),
                          format!("rt::child_of_type(self.node(), {}).map(|n| n.text())", node_type)),
 
-                    Arity::Many => unimplemented!(),
+                    Arity::Many => return Err(format_err!("Bad method `{}`", method.node().text())),
                 }
             }
             MethodKind::NodeAccessor(kind, arity) => {
@@ -401,7 +406,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             Arity::Optional =>
                                 ("Option<rt::Node<'f>>".to_owned(),
                                  format!("self.node().children().find(|n| n.ty() == {})", node_type)),
-                            Arity::Many => unimplemented!(),
+                            Arity::Many => return Err(format_err!("Bad method `{}`", method.node().text())),
                         }
                     }
                 }
diff --git a/fall/gen/src/util.rs b/fall/gen/src/util.rs
index 6cc6350..b565b4c 100644
--- a/fall/gen/src/util.rs
+++ b/fall/gen/src/util.rs
@@ -7,6 +7,12 @@ pub fn scream(word: Text) -> String {
 pub fn camel(word: Text) -> String {
     word.to_cow()
         .split("_")
-        .map(|w| w[..1].to_ascii_uppercase() + &w[1..])
+        .map(|w| {
+            let mut chars = w.chars();
+            match chars.next() {
+                Some(c) => c.to_ascii_uppercase().to_string() + chars.as_str(),
+                None => String::new(),
+            }
+        })
         .collect()
 }
-- 
2.43.0


From 09802dca9ab3ca06cd44644fca3f4a4f211fbebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 14/31] fix: breadcrumbs and completion at the start of a Rust
 file do not panic

---
 lang/rust/src/editor/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lang/rust/src/editor/mod.rs b/lang/rust/src/editor/mod.rs
index 7a40883..6839981 100644
--- a/lang/rust/src/editor/mod.rs
+++ b/lang/rust/src/editor/mod.rs
@@ -29,6 +29,9 @@ impl RustEditorFile {
     }
 
     pub fn after_space_typed(&self, offset: TextUnit) -> Option<String> {
+        if offset < tu(1) {
+            return None;
+        }
         let let_kw = find_leaf_at_offset(self.file.root(), offset - tu(1)).left_biased()?;
         if let_kw.ty() != LET {
             return None;
@@ -44,16 +47,15 @@ impl RustEditorFile {
     }
 
     pub fn expand(&self, offset: TextUnit) -> Option<TextEdit> {
+        if offset < tu(2) {
+            return None;
+        }
         let leaf = find_leaf_at_offset(self.file.root(), offset - tu(2))
             .left_biased()?;
         let expr: ExprStmt = ast::ancestor(leaf)?;
         let mut edit = FileEdit::new(&self.file);
-        let text = self.file.text().slice(
-            TextRange::from_to(
-                expr.node().range().start(),
-                expr.node().range().end() - tu(3),
-            ),
-        );
+        let text = expr.node().text().to_cow();
+        let text = text.get(..text.len().checked_sub(3)?)?;
         edit.replace_substring(
             TextRange::from_to(expr.node().range().start(), offset),
             format!("eprintln!(\"{text} = {{:?}}\", {text});", text = text)
@@ -63,6 +65,9 @@ impl RustEditorFile {
     }
 
     pub fn breadcrumbs(&self, offset: TextUnit) -> Vec<String> {
+        if offset < tu(1) {
+            return Vec::new();
+        }
         let leaf = match find_leaf_at_offset(self.file.root(), offset - tu(1)).left_biased() {
             Some(leaf) => leaf,
             None => return Vec::new(),
-- 
2.43.0


From 8be31be5e4fad9174a5b1367db4f2d651e5dcd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 15/31] fix: the highlight of an empty error node stays within
 the text and on character boundaries

---
 fall/editor/src/hl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fall/editor/src/hl.rs b/fall/editor/src/hl.rs
index 292d02a..d721c27 100644
--- a/fall/editor/src/hl.rs
+++ b/fall/editor/src/hl.rs
@@ -1,4 +1,4 @@
-use fall_tree::{TextRange, NodeType, Node, tu, ERROR as ERROR_TY};
+use fall_tree::{TextRange, TextSuffix, NodeType, Node, tu, ERROR as ERROR_TY};
 
 use fall_tree::visitor::{Visit, VisitorBuilder};
 
@@ -31,7 +31,10 @@ impl<'f> Visit<'f> for HlVisitor {
     fn visit(&mut self, node: Node<'f>, ctx: &mut Highlights) {
         if node.ty() == ERROR_TY {
             let range = if node.range().is_empty() {
-                TextRange::from_len(node.range().start(), tu(1))
+                // Highlight the following character, if there is one
+                let start = node.range().start();
+                let next_char = node.file().text().slice(TextSuffix::from(start)).chars().next();
+                TextRange::from_len(start, tu(next_char.map_or(0, |c| c.len_utf8() as u32)))
             } else {
                 node.range()
             };
-- 
2.43.0


From 6ce0fb20ac0efcaef1767e09d28c2bbee4e97997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 16/31] fix: the symbol index finds all symbols of a file that
 have the same name

---
 lang/rust/src/editor/symbol_index.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lang/rust/src/editor/symbol_index.rs b/lang/rust/src/editor/symbol_index.rs
index 3aaa67d..ccb6518 100644
--- a/lang/rust/src/editor/symbol_index.rs
+++ b/lang/rust/src/editor/symbol_index.rs
@@ -74,10 +74,12 @@ impl Query {
 
         let a = FstSubSeq::new(&self.query);
         for idx in file.map.search(a).into_stream().into_values() {
-            let idx = idx as usize;
-            let symbol = file.symbols[idx].clone();
-            if self.all_symbols || is_type(symbol.ty) {
-                acc(symbol)
+            let symbols = &file.symbols[idx as usize..];
+            let name = symbols[0].name.to_lowercase();
+            for symbol in symbols.iter().take_while(|s| s.name.to_lowercase() == name) {
+                if self.all_symbols || is_type(symbol.ty) {
+                    acc(symbol.clone())
+                }
             }
         }
     }
@@ -103,11 +105,11 @@ impl FileSymbols {
             })
         });
         symbols.sort_by_key(|s| s.name.to_lowercase());
-        symbols.dedup_by_key(|s| s.name.to_lowercase());
 
-        let map = fst::Map::from_iter(
-            symbols.iter().map(|s| (s.name.to_lowercase())).zip(0u64..)
-        ).unwrap();
+        // Maps a name to the first symbol with this name
+        let mut names = symbols.iter().map(|s| (s.name.to_lowercase())).zip(0u64..).collect::<Vec<_>>();
+        names.dedup_by(|a, b| a.0 == b.0);
+        let map = fst::Map::from_iter(names).unwrap();
 
         FileSymbols { symbols, map }
     }
-- 
2.43.0


From d3e87cbd352ca2fdee5fb4eed537b27bd0ee9ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 17/31] fix: the file index forgets removed and renamed
 directories and misses no change at startup

---
 indxr/src/lib.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index a4b61fa..faebd6d 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -65,20 +65,24 @@ pub struct FileIndexImpl<V> {
 }
 
 fn watch<V>(index: &FileIndexImpl<V>) {
-    let initial_indexing_start = ::std::time::Instant::now();
-    for path in index.file_set.roots.iter() {
-        index.change(path)
-    }
-    let elapsed = initial_indexing_start.elapsed();
-    info!("indexing took = {}s", elapsed.as_secs());
     let (tx, rx) = channel();
 
+    // Start watching before the initial indexing, so as not to miss changes in between
     let _watchers = index.file_set.roots.iter().map(|path| {
         let tx = tx.clone();
         let mut watcher: RecommendedWatcher = Watcher::new(tx, Duration::from_secs(2)).unwrap();
-        watcher.watch(path, RecursiveMode::Recursive).unwrap();
+        if let Err(e) = watcher.watch(path, RecursiveMode::Recursive) {
+            error!("can't watch {}: {:?}", path.display(), e);
+        }
         watcher
     }).collect::<Vec<_>>();
+
+    let initial_indexing_start = ::std::time::Instant::now();
+    for path in index.file_set.roots.iter() {
+        index.change(path)
+    }
+    let elapsed = initial_indexing_start.elapsed();
+    info!("indexing took = {}s", elapsed.as_secs());
     loop {
         match rx.recv() {
             Ok(event) => {
@@ -126,10 +130,8 @@ impl<V> FileIndexImpl<V> {
                     }
                 };
             }
-            (false, false) => {
-                self.data.lock().unwrap().remove(path);
-            }
-            (true, false) => {
+            (_, false) => {
+                // This could have been either a file or a directory
                 self.data.lock().unwrap().retain(|k, _| {
                     !k.starts_with(path)
                 });
@@ -149,7 +151,9 @@ impl<V> FileIndexImpl<V> {
                     }
                 }
 
-                self.data.lock().unwrap().extend(local);
+                let mut data = self.data.lock().unwrap();
+                data.retain(|k, _| !k.starts_with(path));
+                data.extend(local);
             }
         };
     }
-- 
2.43.0


From 1981cf8bc4a73394ca01703cd144b9cb873cef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 18/31] fix: duplicate rules and single-use contexts are
 reported whatever else the grammar contains

---
 lang/fall/src/analysis/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/fall/src/analysis/mod.rs b/lang/fall/src/analysis/mod.rs
index aaf204c..bf9e936 100644
--- a/lang/fall/src/analysis/mod.rs
+++ b/lang/fall/src/analysis/mod.rs
@@ -66,6 +66,8 @@ impl<'f> Analysis<'f> {
         );
         self.db.get(query::UnusedRules);
         self.db.get(query::AllLexRules);
+        self.db.get(query::AllSynRules);
+        self.db.get(query::AllContexts);
 
         let mut result = self.db.diagnostics.lock().unwrap().clone();
         result.sort_by_key(|d| {
-- 
2.43.0


From 1b60c98f7bef3c33cb955dad4b5eebbbc6210dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 19/31] fix: reformatting a grammar with empty alternatives or
 tabs around bars settles at once

---
 lang/fall/src/editor/formatter.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/lang/fall/src/editor/formatter.rs b/lang/fall/src/editor/formatter.rs
index c951fa9..2f1164d 100644
--- a/lang/fall/src/editor/formatter.rs
+++ b/lang/fall/src/editor/formatter.rs
@@ -1,4 +1,4 @@
-use fall_tree::{Node, NodeType, File, TextEdit, FileEdit, tu};
+use fall_tree::{Node, NodeType, File, TextEdit, FileEdit};
 use fall_tree::search::{sibling, Direction};
 use crate::syntax::{PIPE, L_ANGLE, R_ANGLE, WHITESPACE};
 
@@ -44,11 +44,13 @@ impl<'r> Spacer<'r> {
     fn apply<'f>(&self, node: Node<'f>, edit: &mut FileEdit<'f>) {
         for &rule in self.rules {
             let (spaces, ws_node, before_ws_node) =
-                match (rule, sibling(node, Direction::Right), sibling(node, Direction::Left)) {
+                match (rule, neighbor(node, Direction::Right), neighbor(node, Direction::Left)) {
                     (Rule::After(rty, spaces), Some(next), _) if rty == node.ty() => {
                         (spaces, next, node)
                     }
-                    (Rule::Before(rty, spaces), _, Some(prev)) if rty == node.ty() => {
+                    (Rule::Before(rty, spaces), _, Some(prev))
+                        if rty == node.ty() && !self.has_rule_after(prev) =>
+                    {
                         (spaces, prev, prev)
                     }
                     _ => continue
@@ -61,13 +63,30 @@ impl<'r> Spacer<'r> {
             match (spaces, ws_node.ty() == self.ws_type) {
                 (Spaces::None, true) => edit.delete(ws_node),
                 (Spaces::Single, false) => edit.insert_text_after(before_ws_node, " ".to_owned()),
-                (Spaces::Single, true) if ws_node.text().len() != tu(1) => {
+                (Spaces::Single, true) if ws_node.text().to_cow() != " " => {
                     edit.replace_with_text(ws_node, " ".to_owned())
                 }
                 _ => continue
             }
         }
     }
+
+    // the gap after `node` is handled when `node` itself is visited
+    fn has_rule_after(&self, node: Node) -> bool {
+        self.rules.iter().any(|&rule| match rule {
+            Rule::After(ty, _) => ty == node.ty(),
+            Rule::Before(..) => false,
+        })
+    }
+}
+
+// empty nodes (of empty alternatives, for example) are not seen in the text
+fn neighbor(node: Node, dir: Direction) -> Option<Node> {
+    let mut current = sibling(node, dir)?;
+    while current.range().is_empty() {
+        current = sibling(current, dir)?;
+    }
+    Some(current)
 }
 
 
-- 
2.43.0


From d235a695abfa1a8e314b18bd7d5d44823d417cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 20/31] fix: extracting a rule keeps the grammar parsable

---
 lang/fall/src/editor/actions/extract_rule.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lang/fall/src/editor/actions/extract_rule.rs b/lang/fall/src/editor/actions/extract_rule.rs
index c314338..ae564ff 100644
--- a/lang/fall/src/editor/actions/extract_rule.rs
+++ b/lang/fall/src/editor/actions/extract_rule.rs
@@ -1,4 +1,4 @@
-use fall_tree::{AstNode, File, Node, TextRange, FileEdit};
+use fall_tree::{AstNode, File, Node, TextRange, TextSuffix, FileEdit, tu};
 use fall_tree::search::{find_covering_node, ancestors};
 use fall_tree::search::ast;
 use fall_editor::actions::ActionResult;
@@ -24,8 +24,21 @@ pub fn extract_rule(file: &File, range: TextRange, apply: bool) -> Option<Action
 
     let new_rule = format!("\n\nrule new_rule {{\n  {}\n}}", file.text().slice(range));
 
+    // the body of a rule is always a block
+    let is_body = expr.parent().map_or(false, |parent| SynRule::wrap(parent).is_some());
+    let mut call = if is_body { "{ new_rule }" } else { "new_rule" }.to_owned();
+    // don't glue the name to the words around it
+    let is_word = |c: char| c.is_alphanumeric() || c == '_';
+    let text = file.text();
+    if text.slice(TextSuffix::from(range.end())).chars().next().map_or(false, is_word) {
+        call.push(' ');
+    }
+    if text.slice(TextRange::from_to(tu(0), range.start())).chars().last().map_or(false, is_word) {
+        call.insert(0, ' ');
+    }
+
     let mut edit = FileEdit::new(file);
-    edit.replace_substring(range, "new_rule".to_owned());
+    edit.replace_substring(range, call);
     edit.insert_text_after(rule, new_rule);
     Some(ActionResult::Applied(edit.into_text_edit()))
 }
-- 
2.43.0


From 9c80f00beebba00654bb74be81a897f556124c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 21/31] fix: adding braces to a renamed import moves the alias
 into them

---
 lang/rust/src/editor/actions.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lang/rust/src/editor/actions.rs b/lang/rust/src/editor/actions.rs
index 8fc6b10..c12044a 100644
--- a/lang/rust/src/editor/actions.rs
+++ b/lang/rust/src/editor/actions.rs
@@ -1,7 +1,7 @@
-use fall_tree::{File, TextUnit, FileEdit, AstNode};
-use fall_tree::search::ast;
+use fall_tree::{File, TextUnit, TextRange, FileEdit, AstNode};
+use fall_tree::search::{ast, child_of_type};
 use fall_editor::actions::ActionResult;
-use crate::syntax::{NameOwner, TypeParametersOwner, EnumDef, StructDef, UseDecl};
+use crate::syntax::{NameOwner, TypeParametersOwner, EnumDef, StructDef, UseDecl, ALIAS};
 
 
 pub const ACTIONS: &[(&str, fn(&File, TextUnit, bool) -> Option<ActionResult>)] = &[
@@ -20,7 +20,10 @@ fn add_use_braces(file: &File, offset: TextUnit, apply: bool) -> Option<ActionRe
         return Some(ActionResult::Available);
     }
     let mut edit = FileEdit::new(&file);
-    edit.replace_with_text(last_segment, format!("{{{}}}", last_segment.text()));
+    // an alias belongs to the segment and goes inside of the braces
+    let last_node = child_of_type(use_decl.node(), ALIAS).unwrap_or(last_segment);
+    let range = TextRange::from_to(last_segment.range().start(), last_node.range().end());
+    edit.replace_substring(range, format!("{{{}}}", file.text().slice(range)));
     Some(ActionResult::Applied(edit.into_text_edit()))
 }
 
-- 
2.43.0


From 1ab9380e23692dbb5edf37cd88e928335e2d3b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 22/31] fix: the file index sees files that are replaced and
 then removed

---
 indxr/src/lib.rs | 54 +++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index faebd6d..66a54d1 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -5,13 +5,13 @@ extern crate walkdir;
 extern crate notify;
 
 use std::sync::mpsc::channel;
-use std::time::Duration;
+use std::time::{Duration, Instant};
 use std::path::{Path, PathBuf};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::sync::{Mutex, Arc};
 
 use walkdir::WalkDir;
-use notify::{RecommendedWatcher, Watcher, RecursiveMode, DebouncedEvent};
+use notify::{op, raw_watcher, RawEvent, RecommendedWatcher, Watcher, RecursiveMode};
 
 // The V type should be Send + 'static but that can not be enforced on a type alias
 type Mapper<V> = Box<dyn Fn(&Path) -> Option<V> + Sync + Send>;
@@ -64,13 +64,18 @@ pub struct FileIndexImpl<V> {
     mapper: Mapper<V>,
 }
 
+/// Changes are indexed when there are no new events for this time ...
+const QUIET_TIME: Duration = Duration::from_millis(300);
+/// ... or when they are waiting for this time already.
+const MAX_GATHERING_TIME: Duration = Duration::from_secs(2);
+
 fn watch<V>(index: &FileIndexImpl<V>) {
     let (tx, rx) = channel();
 
     // Start watching before the initial indexing, so as not to miss changes in between
     let _watchers = index.file_set.roots.iter().map(|path| {
         let tx = tx.clone();
-        let mut watcher: RecommendedWatcher = Watcher::new(tx, Duration::from_secs(2)).unwrap();
+        let mut watcher: RecommendedWatcher = raw_watcher(tx).unwrap();
         if let Err(e) = watcher.watch(path, RecursiveMode::Recursive) {
             error!("can't watch {}: {:?}", path.display(), e);
         }
@@ -84,28 +89,29 @@ fn watch<V>(index: &FileIndexImpl<V>) {
     let elapsed = initial_indexing_start.elapsed();
     info!("indexing took = {}s", elapsed.as_secs());
     loop {
-        match rx.recv() {
-            Ok(event) => {
-                info!("event: {:?}", event);
-                match event {
-                    DebouncedEvent::NoticeWrite(path)
-                    | DebouncedEvent::NoticeRemove(path)
-                    | DebouncedEvent::Create(path)
-                    | DebouncedEvent::Write(path)
-                    | DebouncedEvent::Remove(path) => {
-                        index.change(&path)
-                    }
-                    DebouncedEvent::Rename(p1, p2) => {
-                        index.change(&p1);
-                        index.change(&p2);
-                    }
-                    _ => continue,
+        // Events are gathered here and not by a debouncing watcher, because the latter drops
+        // some of them (a file which is first replaced and then removed, for example).
+        // What has happened to a path does not matter, only its current state does.
+        let mut paths = HashSet::new();
+        let mut event = rx.recv().ok();
+        let gathering_start = Instant::now();
+        while let Some(e) = event.take() {
+            info!("event: {:?}", e);
+            match e {
+                RawEvent { op: Ok(op), .. } if op.contains(op::RESCAN) =>
+                    paths.extend(index.file_set.roots.iter().cloned()),
+                RawEvent { path: Some(path), op: Ok(_), .. } => {
+                    paths.insert(path);
                 }
-            },
-            Err(e) => {
-                error!("watch error: {:?}", e);
-                continue
+                RawEvent { op: Err(e), .. } => error!("watch error: {:?}", e),
+                _ => (),
             }
+            if gathering_start.elapsed() < MAX_GATHERING_TIME {
+                event = rx.recv_timeout(QUIET_TIME).ok();
+            }
+        }
+        for path in paths {
+            index.change(&path);
         }
     }
 }
-- 
2.43.0


From 197128cf75a15554eb95c2bedd5b10f87cec6eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 23/31] fix: symbol queries match characters and not bytes

---
 lang/rust/src/editor/fst_subseq.rs | 47 +++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/lang/rust/src/editor/fst_subseq.rs b/lang/rust/src/editor/fst_subseq.rs
index 75b5c2b..a829909 100644
--- a/lang/rust/src/editor/fst_subseq.rs
+++ b/lang/rust/src/editor/fst_subseq.rs
@@ -9,32 +9,51 @@ impl<'a> FstSubSeq<'a> {
     }
 }
 
+/// The automaton is fed with bytes, but has to find the characters of the query.
+#[derive(Clone, Copy)]
+pub struct State {
+    /// Length of the query's prefix found so far
+    matched: usize,
+    /// Does the current character of the name still look like the next one of the query?
+    alive: bool,
+}
+
 impl<'a> fst::Automaton for FstSubSeq<'a> {
-    type State = usize;
+    type State = State;
 
-    fn start(&self) -> usize {
-        0
+    fn start(&self) -> State {
+        State { matched: 0, alive: false }
     }
 
-    fn is_match(&self, &state: &usize) -> bool {
-        state == self.query.len()
+    fn is_match(&self, state: &State) -> bool {
+        state.matched == self.query.len()
     }
 
-    fn accept(&self, &state: &usize, byte: u8) -> usize {
-        if state >= self.query.len() {
-            return state;
+    fn accept(&self, state: &State, byte: u8) -> State {
+        let State { mut matched, mut alive } = *state;
+        if matched == self.query.len() {
+            return *state;
+        }
+        let is_char_start = byte & 0b1100_0000 != 0b1000_0000;
+        if is_char_start {
+            // forget the first bytes of a character which turned out to be a different one
+            while !self.query.is_char_boundary(matched) {
+                matched -= 1;
+            }
+            alive = true;
         }
-        if byte == self.query.as_bytes()[state] {
-            return state + 1;
+        alive = alive && byte == self.query.as_bytes()[matched];
+        if alive {
+            matched += 1;
         }
-        return state;
+        State { matched, alive }
     }
 
-    fn can_match(&self, _: &usize) -> bool {
+    fn can_match(&self, _: &State) -> bool {
         true
     }
 
-    fn will_always_match(&self, &state: &usize) -> bool {
-        state == self.query.len()
+    fn will_always_match(&self, state: &State) -> bool {
+        state.matched == self.query.len()
     }
 }
-- 
2.43.0


From 7ccd130c049d5caaf0b43593510fceb14590cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 24/31] fix: a reused cached rule still replaces the type of
 its node

---
 fall/parse/src/syn_engine/expr.rs   |  9 +++---
 fall/parse/src/syn_engine/mod.rs    | 13 +++++++--
 fall/parse/src/syn_engine/parser.rs | 44 +++++++++++++++++++++++++++--
 fall/parse/src/syn_engine/pratt.rs  |  5 ++--
 4 files changed, 59 insertions(+), 12 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index d0bdbb2..972e5ba 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -144,16 +144,17 @@ fn parse_pub<'g>(
     ty_idx: NodeTypeRef, body: ExprRef, replaceable: bool,
 ) -> Option<Pos> {
     if replaceable {
-        p.replacement = None;
+        p.set_replacement(None);
     }
     let mark = p.start(ty_idx);
     let ts = parse_expr(p, body, tokens)?;
     if let (true, Some(ty)) = (replaceable, p.replacement) {
-        p.replacement = None;
+        p.set_replacement(None);
         p.replace(mark, ty)
     };
     p.finish();
-    p.prev = Some(p[ty_idx]);
+    let ty = p[ty_idx];
+    p.set_prev(ty);
     Some(ts)
 }
 
@@ -162,7 +163,7 @@ fn parse_pub_replace<'g>(
     ty_idx: NodeTypeRef, body: ExprRef
 ) -> Option<Pos> {
     let ts = parse_expr(p, body, tokens)?;
-    p.replacement = Some(ty_idx);
+    p.set_replacement(Some(ty_idx));
     Some(ts)
 }
 
diff --git a/fall/parse/src/syn_engine/mod.rs b/fall/parse/src/syn_engine/mod.rs
index 4729549..199f479 100644
--- a/fall/parse/src/syn_engine/mod.rs
+++ b/fall/parse/src/syn_engine/mod.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use fall_tree::{NodeType, TextEdit, TextUnit, TextEditOp, tu, TextRange, ERROR};
 use crate::lex_engine::Token;
-use crate::{Expr, ExprRef};
+use crate::{Expr, ExprRef, NodeTypeRef};
 
 pub struct Grammar<'g> {
     pub node_types: &'g [NodeType],
@@ -34,7 +34,14 @@ pub(crate) enum Event {
     Start { ty: NodeType, forward_parent: Option<u32> },
     Token { ty: NodeType, n_raw_tokens: u16 },
     End,
-    Cached { key: u32, n_events: u32 },
+    Cached { key: u32, n_events: u32, effects: Effects },
+}
+
+/// What a cached rule leaves behind besides its events.
+#[derive(Copy, Clone, Debug, Default)]
+pub(crate) struct Effects {
+    replacement: Option<Option<NodeTypeRef>>,
+    prev: Option<NodeType>,
 }
 
 pub(crate) fn salvage_segments(
@@ -94,7 +101,7 @@ pub(crate) fn salvage_segments(
             Event::Token { n_raw_tokens, .. } =>
                 eat_tokens(&mut raw_token_pos, &mut text_pos, n_raw_tokens),
 
-            Event::Cached { key, n_events } => {
+            Event::Cached { key, n_events, .. } => {
                 let start = text_pos;
                 let start_token = raw_token_pos;
                 let mut n_tokens = 0u32;
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 7cb7e64..bd7c876 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use fall_tree::{TextUnit, Text, TextSuffix, NodeType, tu};
 use crate::lex_engine::Token;
-use crate::syn_engine::{Grammar, Event};
+use crate::syn_engine::{Grammar, Event, Effects};
 use crate::{NodeTypeRef, ExprRef};
 
 pub(crate) struct Parser<'g> {
@@ -15,6 +15,9 @@ pub(crate) struct Parser<'g> {
     ticks: u64,
     events: Vec<Event>,
     pub replacement: Option<NodeTypeRef>,
+    // number of events when `replacement` and `prev` were set
+    replacement_at: u32,
+    prev_at: u32,
     pub predicate_mode: bool,
     pub contexts: [bool; 16],
     pub args: [Option<ExprRef>; 16],
@@ -37,7 +40,9 @@ impl Pos {
 pub(crate) struct Mark {
     event: u32,
     replacement: Option<NodeTypeRef>,
+    replacement_at: u32,
     prev: Option<NodeType>,
+    prev_at: u32,
 }
 
 impl<'g> Parser<'g> {
@@ -72,6 +77,8 @@ impl<'g> Parser<'g> {
             ticks: 0,
             events: Vec::new(),
             replacement: None,
+            replacement_at: 0,
+            prev_at: 0,
             predicate_mode: false,
             contexts: [false; 16],
             args: [None; 16],
@@ -103,6 +110,16 @@ impl<'g> Parser<'g> {
         self.event(Event::End)
     }
 
+    pub fn set_replacement(&mut self, replacement: Option<NodeTypeRef>) {
+        self.replacement = replacement;
+        self.replacement_at = self.events.len() as u32;
+    }
+
+    pub fn set_prev(&mut self, ty: NodeType) {
+        self.prev = Some(ty);
+        self.prev_at = self.events.len() as u32;
+    }
+
     pub fn get_from_cache(&mut self, expr: ExprRef, pos: Pos) -> Option<Pos> {
         if pos.is_empty() {
             return None;
@@ -116,6 +133,16 @@ impl<'g> Parser<'g> {
                 if !self.predicate_mode {
                     self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
                 }
+                let effects = match events[start_event as usize - 1] {
+                    Event::Cached { effects, .. } => effects,
+                    _ => unreachable!(),
+                };
+                if let Some(replacement) = effects.replacement {
+                    self.set_replacement(replacement);
+                }
+                if let Some(prev) = effects.prev {
+                    self.set_prev(prev);
+                }
                 return Some(Pos(pos.0 + n_tokens, pos.1));
             }
         }
@@ -125,15 +152,22 @@ impl<'g> Parser<'g> {
 
     pub fn start_cached(&mut self, expr: ExprRef) -> Mark {
         let mark = self.mark();
-        self.event(Event::Cached { key: expr.0, n_events: 0 });
+        self.event(Event::Cached { key: expr.0, n_events: 0, effects: Effects::default() });
         mark
     }
 
     pub fn finish_cached(&mut self, mark: Mark) {
         if !self.predicate_mode {
             let len = self.events.len() as u32 - (mark.event + 1);
+            let new_effects = Effects {
+                replacement: if self.replacement_at > mark.event { Some(self.replacement) } else { None },
+                prev: if self.prev_at > mark.event { self.prev } else { None },
+            };
             match self.events[mark.event as usize] {
-                Event::Cached { ref mut n_events, .. } => *n_events = len,
+                Event::Cached { ref mut n_events, ref mut effects, .. } => {
+                    *n_events = len;
+                    *effects = new_effects;
+                }
                 _ => unreachable!(),
             }
         }
@@ -152,7 +186,9 @@ impl<'g> Parser<'g> {
         Mark {
             event: self.events.len() as u32,
             replacement: self.replacement,
+            replacement_at: self.replacement_at,
             prev: self.prev,
+            prev_at: self.prev_at,
         }
     }
 
@@ -164,7 +200,9 @@ impl<'g> Parser<'g> {
 
         truncate_fast(&mut self.events, mark.event as usize);
         self.replacement = mark.replacement;
+        self.replacement_at = mark.replacement_at;
         self.prev = mark.prev;
+        self.prev_at = mark.prev_at;
     }
 
     pub fn replace(&mut self, mark: Mark, ty_idx: NodeTypeRef) {
diff --git a/fall/parse/src/syn_engine/pratt.rs b/fall/parse/src/syn_engine/pratt.rs
index db192a1..c1acf7f 100644
--- a/fall/parse/src/syn_engine/pratt.rs
+++ b/fall/parse/src/syn_engine/pratt.rs
@@ -38,7 +38,7 @@ fn pratt_go<'g>(
                     }
                 }
                 let ty = p[ix.ty];
-                p.prev = Some(ty);
+                p.set_prev(ty);
                 lhs = new_lhs;
                 p.finish();
                 continue 'l;
@@ -63,7 +63,8 @@ fn pratt_prefix<'p>(
         let mark = p.start(prefix.ty);
         if let Some(tokens) = parse_expr(p, prefix.op, tokens) {
             if let Some(rest) = pratt_go(p, table, tokens, prefix.priority) {
-                p.prev = Some(p[prefix.ty]);
+                let ty = p[prefix.ty];
+                p.set_prev(ty);
                 p.finish();
                 return Some(rest);
             }
-- 
2.43.0


From e2beb62521adc0b947767d57bc04ac28287a6c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 25/31] fix: a contextual token is spelled by tokens next to
 each other

The lengths of the tokens that are not whitespace could add up to the length
of the text although a piece of whitespace lay among them. The tree was then
built from as many raw tokens, others than the ones matched, and lost the end
of the file.
---
 fall/parse/src/syn_engine/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index bd7c876..6ba82d9 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -254,6 +254,10 @@ impl<'g> Parser<'g> {
             if pos.is_empty() {
                 return None;
             }
+            let cur_start = self.non_ws_indexes[pos.0 as usize].0;
+            if cur_start != start + (tu(text.len() as u32) - leftover) {
+                return None;
+            }
             let cur_len = self[pos].len;
             if leftover < cur_len {
                 return None;
-- 
2.43.0


From c10953a79bd5888130469b68928c04e9ff385011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:24 +0000
Subject: [PATCH 26/31] fix: any number of contexts and parameters

Contexts and parameters are numbered across all rules of a grammar. The parser
had room for sixteen of each and panicked at the next one.
---
 fall/parse/src/syn_engine/expr.rs   |  2 +-
 fall/parse/src/syn_engine/parser.rs | 29 ++++++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 972e5ba..0ce3516 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -335,7 +335,7 @@ fn parse_call<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     body: ExprRef, args: &'g [(Arg, ExprRef)],
 ) -> Option<Pos> {
-    let old = p.args;
+    let old = p.args.clone();
     for &(arg_pos, arg) in args {
         let arg = match p.grammar[arg] {
             Expr::Var(i) => old[i.0 as usize].unwrap(),
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 6ba82d9..5e0a945 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use fall_tree::{TextUnit, Text, TextSuffix, NodeType, tu};
 use crate::lex_engine::Token;
 use crate::syn_engine::{Grammar, Event, Effects};
-use crate::{NodeTypeRef, ExprRef};
+use crate::{NodeTypeRef, ExprRef, Expr};
 
 pub(crate) struct Parser<'g> {
     cache: Option<(HashMap<(TextUnit, ExprRef), (u32, u32, u32)>, &'g [Event])>,
@@ -19,8 +19,8 @@ pub(crate) struct Parser<'g> {
     replacement_at: u32,
     prev_at: u32,
     pub predicate_mode: bool,
-    pub contexts: [bool; 16],
-    pub args: [Option<ExprRef>; 16],
+    pub contexts: Vec<bool>,
+    pub args: Vec<Option<ExprRef>>,
     pub prev: Option<NodeType>,
 }
 
@@ -45,6 +45,24 @@ pub(crate) struct Mark {
     prev_at: u32,
 }
 
+/// How many contexts and arguments (those of all the rules together) a grammar numbers.
+fn count_contexts_and_args(rules: &[Expr]) -> (usize, usize) {
+    let mut n_contexts = 0;
+    let mut n_args = 0;
+    for rule in rules {
+        match *rule {
+            Expr::Enter(ctx, _) | Expr::Exit(ctx, _) | Expr::IsIn(ctx) =>
+                n_contexts = n_contexts.max(ctx.0 as usize + 1),
+            Expr::Call(_, ref args) => for &(arg, _) in args {
+                n_args = n_args.max(arg.0 as usize + 1);
+            },
+            Expr::Var(arg) => n_args = n_args.max(arg.0 as usize + 1),
+            _ => (),
+        }
+    }
+    (n_contexts, n_args)
+}
+
 impl<'g> Parser<'g> {
     pub fn new(
         cache: Option<(HashMap<(TextUnit, ExprRef), (u32, u32, u32)>, &'g [Event])>,
@@ -66,6 +84,7 @@ impl<'g> Parser<'g> {
         };
 
         let pos = Pos(0, non_ws_indexes.len() as u32);
+        let (n_contexts, n_args) = count_contexts_and_args(grammar.rules);
 
         let parser = Parser {
             cache,
@@ -80,8 +99,8 @@ impl<'g> Parser<'g> {
             replacement_at: 0,
             prev_at: 0,
             predicate_mode: false,
-            contexts: [false; 16],
-            args: [None; 16],
+            contexts: vec![false; n_contexts],
+            args: vec![None; n_args],
             prev: None,
         };
         (parser, pos)
-- 
2.43.0


From 6a44011a73876a320dbd18fc51859c621797bce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 27/31] fix: rules of any text are quoted in the generated
 parser

The rules are pasted into a raw string, which a contextual token whose text has
a quote and two hashes ended before its end.
---
 fall/gen/src/generate/codegen.rs | 6 ++++++
 fall/gen/src/generate/mod.rs     | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 7caff7f..ee2ac8a 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -59,7 +59,13 @@ impl<'a, 'f> Codegen<'a, 'f> {
             self.expressions[i] = expr;
         }
         let parser = serde_json::to_string(&self.expressions).unwrap();
+        // Contextual tokens may contain what looks like the end of the raw string.
+        let mut hashes = "##".to_owned();
+        while parser.contains(&format!("\"{}", hashes)) {
+            hashes.push('#');
+        }
         context.insert("parser_json", &parser);
+        context.insert("parser_json_hashes", &hashes);
 
         let lex_rules = self.file().tokenizer_def()
             .ok_or(format_err!("no tokens defined"))?
diff --git a/fall/gen/src/generate/mod.rs b/fall/gen/src/generate/mod.rs
index 42d6418..646cfac 100644
--- a/fall/gen/src/generate/mod.rs
+++ b/fall/gen/src/generate/mod.rs
@@ -30,7 +30,7 @@ pub fn language() -> &'static rt::Language {
     }
 
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"{{ parser_json }}"##;
+        let parser_json = r{{ parser_json_hashes }}"{{ parser_json }}"{{ parser_json_hashes }};
 
         ::fall_parse::ParserDefinition {
             node_types: vec![
-- 
2.43.0


From c2db153140798e254af10138b8120a7d74f8b6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:33 +0000
Subject: [PATCH 28/31] fix: constants of node types are spelled the same
 everywhere

The definitions are made upper case by the template, letters outside ASCII
included, and the uses were not.
---
 fall/gen/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fall/gen/src/util.rs b/fall/gen/src/util.rs
index b565b4c..2e5f207 100644
--- a/fall/gen/src/util.rs
+++ b/fall/gen/src/util.rs
@@ -1,7 +1,7 @@
 use fall_tree::Text;
 
 pub fn scream(word: Text) -> String {
-    word.to_cow().chars().map(|c| c.to_ascii_uppercase()).collect()
+    word.to_cow().to_uppercase()
 }
 
 pub fn camel(word: Text) -> String {
-- 
2.43.0


From 79cdd3611fdb5b3a472d3c46ecc081cf0db04133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 29/31] fix: extending a selection that covers the file keeps
 it

---
 code/common.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/common.ts b/code/common.ts
index a5933eb..bf86a22 100644
--- a/code/common.ts
+++ b/code/common.ts
@@ -72,6 +72,7 @@ export function createPlugin(
             if (editor == null || file == null) return
             editor.selections = editor.selections.map((s) => {
                 let range = file.extendSelection(s)
+                if (range == null) return s
                 return new vscode.Selection(range.start, range.end)
             })
         },
-- 
2.43.0


From 90d60af92066186d8f55e711cccd6448c1ccc786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 30/31] fix: editor plugins count bytes where the backend does

---
 code/common.ts        | 70 +++++++++++++++++++++++++++++++++++++------
 code/fall/src/main.ts |  8 ++---
 code/rust/src/main.ts |  6 ++--
 3 files changed, 68 insertions(+), 16 deletions(-)

diff --git a/code/common.ts b/code/common.ts
index bf86a22..5554a01 100644
--- a/code/common.ts
+++ b/code/common.ts
@@ -157,6 +157,56 @@ export class EditorFile {
     }
 }
 
+// The editor measures text in UTF-16 code units, and the backend in bytes of UTF-8.
+// For texts outside of ASCII this maps offsets in code units to offsets in bytes.
+function byteOffsets(text: string): Uint32Array | null {
+    if (Buffer.byteLength(text) == text.length) return null
+    let result = new Uint32Array(text.length + 1)
+    let bytes = 0
+    for (let i = 0; i < text.length; i++) {
+        result[i] = bytes
+        let c = text.codePointAt(i)
+        if (c > 0xFFFF) {
+            // a surrogate pair
+            i += 1
+            result[i] = bytes
+        }
+        bytes += c < 0x80 ? 1 : c < 0x800 ? 2 : c <= 0xFFFF ? 3 : 4
+    }
+    result[text.length] = bytes
+    return result
+}
+
+const offsetsOfDocument: WeakMap<vscode.TextDocument, { version: number, offsets: Uint32Array | null }> = new WeakMap()
+
+function documentOffsets(doc: vscode.TextDocument): Uint32Array | null {
+    let cached = offsetsOfDocument.get(doc)
+    if (!cached || cached.version != doc.version) {
+        cached = { version: doc.version, offsets: byteOffsets(doc.getText()) }
+        offsetsOfDocument.set(doc, cached)
+    }
+    return cached.offsets
+}
+
+export function toOffset(doc: vscode.TextDocument, position: vscode.Position): number {
+    let offset = doc.offsetAt(position)
+    let offsets = documentOffsets(doc)
+    return offsets ? offsets[offset] : offset
+}
+
+function toVsPosition(doc: vscode.TextDocument, offset: number): vscode.Position {
+    let offsets = documentOffsets(doc)
+    if (!offsets) return doc.positionAt(offset)
+    // the first code unit which does not start before the offset
+    let lo = 0
+    let hi = offsets.length - 1
+    while (lo < hi) {
+        let mid = (lo + hi) >> 1
+        if (offsets[mid] < offset) lo = mid + 1; else hi = mid
+    }
+    return doc.positionAt(lo)
+}
+
 function documentToFile(backend, fileExtension: string, disposables: vscode.Disposable[], onChange) {
     let docs = {}
     function update(doc: vscode.TextDocument, file) {
@@ -164,7 +214,7 @@ function documentToFile(backend, fileExtension: string, disposables: vscode.Disp
         if (file == null) {
             delete docs[key]
         } else {
-            docs[key] = file
+            docs[key] = { file: file, text: doc.getText() }
         }
         onChange(doc)
     }
@@ -179,16 +229,18 @@ function documentToFile(backend, fileExtension: string, disposables: vscode.Disp
     vscode.workspace.onDidChangeTextDocument((event: vscode.TextDocumentChangeEvent) => {
         let doc = event.document
         if (!isKnownDoc(event.document)) return
-        let tree = get(doc)
-        if (event.contentChanges.length == 1 && tree) {
+        let old = get(doc)
+        if (event.contentChanges.length == 1 && old) {
+            let offsets = byteOffsets(old.text)
             let edits = event.contentChanges.map((change) => {
                 let start = doc.offsetAt(change.range.start)
+                let end = start + change.rangeLength
                 return {
-                    "delete": [start, start + change.rangeLength],
+                    "delete": offsets ? [offsets[start], offsets[end]] : [start, end],
                     "insert": change.text
                 }
             })
-            update(doc, backend.edit(tree, edits))
+            update(doc, backend.edit(old.file, edits))
             return
         }
         update(doc, null)
@@ -209,7 +261,7 @@ function documentToFile(backend, fileExtension: string, disposables: vscode.Disp
         if (!get(doc)) {
             update(doc, backend.parse(doc.getText()))
         }
-        let imp = get(doc)
+        let imp = get(doc).file
         return new EditorFile(backend, imp, doc)
     }
 }
@@ -352,13 +404,13 @@ function setHighlights(
 
 export function toVsRange(doc: vscode.TextDocument, range: [number, number]): vscode.Range {
     return new vscode.Range(
-        doc.positionAt(range[0]),
-        doc.positionAt(range[1]),
+        toVsPosition(doc, range[0]),
+        toVsPosition(doc, range[1]),
     )
 }
 
 function fromVsRange(doc: vscode.TextDocument, range: vscode.Range): [number, number] {
-    return [doc.offsetAt(range.start), doc.offsetAt(range.end)]
+    return [toOffset(doc, range.start), toOffset(doc, range.end)]
 }
 
 export function toVsEdits(doc: vscode.TextDocument, edits): Array<vscode.TextEdit> {
diff --git a/code/fall/src/main.ts b/code/fall/src/main.ts
index 080619d..5feaac1 100644
--- a/code/fall/src/main.ts
+++ b/code/fall/src/main.ts
@@ -1,7 +1,7 @@
 'use strict'
 
 import * as vscode from 'vscode'
-import { createPlugin, EditorFile, toVsRange } from './common'
+import { createPlugin, EditorFile, toOffset, toVsRange } from './common'
 import { log } from 'util'
 import { connect } from 'net';
 
@@ -61,7 +61,7 @@ class DefinitionProvider implements vscode.DefinitionProvider {
     ): vscode.Location {
         let file = this.getFile(document)
         if (file == null) return
-        let range = file.call("resolveReference", document.offsetAt(position))
+        let range = file.call("resolveReference", toOffset(document, position))
         if (range == null) return null
         let vsRange =  toVsRange(document, range)
         return new vscode.Location(document.uri, vsRange)
@@ -82,7 +82,7 @@ class ReferenceProvider implements vscode.ReferenceProvider {
         let file = this.getFile(document)
         if (file == null) return
 
-        return file.call("findUsages", document.offsetAt(position))
+        return file.call("findUsages", toOffset(document, position))
             .map((range) => new vscode.Location(document.uri, toVsRange(document, range)))
     }
 }
@@ -102,7 +102,7 @@ class CodeActionProvider implements vscode.CodeActionProvider {
         let file = this.getFile(document)
         if (file == null) return
 
-        let test_n = file.call("testAtOffset", document.offsetAt(range.start))
+        let test_n = file.call("testAtOffset", toOffset(document, range.start))
         if (test_n == null) return
         return [
             {
diff --git a/code/rust/src/main.ts b/code/rust/src/main.ts
index e630ff7..4cda9d6 100644
--- a/code/rust/src/main.ts
+++ b/code/rust/src/main.ts
@@ -1,7 +1,7 @@
 'use strict'
 
 import * as vscode from 'vscode'
-import { createPlugin, toVsRange, toVsEdits } from './common'
+import { createPlugin, toOffset, toVsRange, toVsEdits } from './common'
 import { log } from 'util'
 import { Uri, SymbolKind } from 'vscode';
 
@@ -31,7 +31,7 @@ export function activate(context: vscode.ExtensionContext) {
             let doc = event.textEditor.document
             let file = plugin.getFile(doc)
             if (file == null) return
-            let position = doc.offsetAt(event.textEditor.selection.active)
+            let position = toOffset(doc, event.textEditor.selection.active)
             let crumbs = file.call("breadcrumbs", position)
             breadcrumbsBar.text = crumbs.join(" $(chevron-right) ")
         })
@@ -100,7 +100,7 @@ class OnTypeFormattingEditProvider implements vscode.OnTypeFormattingEditProvide
     ): vscode.ProviderResult<vscode.TextEdit[]> {
         let file = this.getFile(document)
         if (file == null) return
-        let offset = document.offsetAt(position)
+        let offset = toOffset(document, position)
         if (ch == ' ') {
             let insert = file.call("afterSpaceTyped", offset)
             if (insert == null) return
-- 
2.43.0


From 289f2d86d0820d11b994f4fe0e30b31c2c84f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 31/31] fix: columns of symbols are counted in UTF-16 code
 units

---
 lang/rust/src/editor/line_index.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/lang/rust/src/editor/line_index.rs b/lang/rust/src/editor/line_index.rs
index c8a85c9..b6e753b 100644
--- a/lang/rust/src/editor/line_index.rs
+++ b/lang/rust/src/editor/line_index.rs
@@ -3,32 +3,51 @@ use fall_tree::{TextUnit, tu, Text};
 
 pub struct LineIndex {
     newlines: Vec<TextUnit>,
+    /// Ends of non-ASCII characters, each with the number of bytes by which
+    /// the text up to there is longer in UTF-8 than it has UTF-16 code units
+    wide: Vec<(TextUnit, u32)>,
 }
 
 #[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
 pub struct LineCol {
     pub line: u32,
+    /// In UTF-16 code units, as editors count them
     pub col: u32,
 }
 
 impl LineIndex {
     pub fn new(text: Text) -> LineIndex {
         let mut newlines = vec![tu(0)];
+        let mut wide = Vec::new();
+        let mut excess = 0;
         let mut curr = tu(0);
         for c in text.to_string().chars() {
             curr += tu(c.len_utf8() as u32);
             if c == '\n' {
                 newlines.push(curr);
             }
+            if !c.is_ascii() {
+                excess += (c.len_utf8() - c.len_utf16()) as u32;
+                wide.push((curr, excess));
+            }
         }
-        LineIndex { newlines }
+        LineIndex { newlines, wide }
     }
 
     pub fn translate(&self, offset: TextUnit) -> LineCol {
         let line = self.newlines.upper_bound(&offset) - 1;
         let line_start_offset = self.newlines[line];
-        let col = offset - line_start_offset;
-        return LineCol { line: line as u32, col: col.into() }
+        let col: u32 = (offset - line_start_offset).into();
+        let excess = self.excess(offset) - self.excess(line_start_offset);
+        return LineCol { line: line as u32, col: col - excess }
+    }
+
+    fn excess(&self, offset: TextUnit) -> u32 {
+        match self.wide.binary_search_by_key(&offset, |&(end, _)| end) {
+            Ok(i) => self.wide[i].1,
+            Err(0) => 0,
+            Err(i) => self.wide[i - 1].1,
+        }
     }
 }
 
-- 
2.43.0

