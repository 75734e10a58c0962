From 9896496a9da7d25f46ba2136da283bacabc42989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 01/51] fix: keep match variables working inside match tests
 and next to deleteheader

---
 src/compiler/grammar/instruction.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 0baff56..3e2c118 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -887,22 +887,31 @@ impl CompilerState<'_> {
     }
 
     pub(crate) fn register_match_var(&mut self, num: usize) -> bool {
+        // Positions of tests that are still being parsed, or that belong to other
+        // instructions (such as deleteheader), cannot hold match variables.
+        let instructions = &mut self.instructions;
+        let has_tests = |block: &Block, instructions: &[Instruction]| {
+            block
+                .match_test_pos
+                .iter()
+                .any(|pos| matches!(instructions.get(*pos), Some(Instruction::Test(_))))
+        };
         let mut block = &mut self.block;
 
-        if block.match_test_pos.is_empty() {
+        if !has_tests(block, instructions) {
             for block_ in self.block_stack.iter_mut().rev() {
-                if !block_.match_test_pos.is_empty() {
+                if has_tests(block_, instructions) {
                     block = block_;
                     break;
                 }
             }
         }
 
-        if !block.match_test_pos.is_empty() {
+        if has_tests(block, instructions) {
             debug_assert!(num < 63);
 
             for pos in &block.match_test_pos {
-                if let Some(Instruction::Test(test)) = self.instructions.get_mut(*pos) {
+                if let Some(Instruction::Test(test)) = instructions.get_mut(*pos) {
                     let match_type = match test {
                         Test::Address(t) => &mut t.match_type,
                         Test::Body(t) => &mut t.match_type,
@@ -929,9 +938,6 @@ impl CompilerState<'_> {
                         debug_assert!(false, "This should not have happened");
                         return false;
                     }
-                } else {
-                    debug_assert!(false, "This should not have happened");
-                    return false;
                 }
             }
             true
-- 
2.43.0


From a30ba5c61c50c6b58ed73d766664763949ab85fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 02/51] fix: continue must reach the enclosing while from
 nested loops

---
 src/compiler/grammar/instruction.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 3e2c118..8c8116e 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -583,18 +583,26 @@ impl Compiler {
                                 token_info.line_pos,
                             )?;
                             let mut found_while = 0;
+                            let mut num_pops = 0;
                             for block in [&state.block]
                                 .into_iter()
                                 .chain(state.block_stack.iter().rev())
                             {
-                                if let Word::While = &block.btype {
-                                    found_while += 1;
-                                } else if found_while == 1 {
+                                if found_while == 1 {
+                                    if num_pops > 0 {
+                                        state
+                                            .instructions
+                                            .push(Instruction::ForEveryPartPop(num_pops));
+                                    }
                                     state
                                         .instructions
                                         .push(Instruction::Jmp(block.last_block_start));
                                     found_while += 1;
                                     break;
+                                } else if let Word::While = &block.btype {
+                                    found_while += 1;
+                                } else if let Word::ForEveryPart = &block.btype {
+                                    num_pops += 1;
                                 }
                             }
                             if found_while != 2 {
-- 
2.43.0


From 7f5b139c371d2f77a43514b1df884048f38edf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 03/51] fix: string and environment tests match if any key
 matches

---
 src/runtime/tests/test_string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/tests/test_string.rs b/src/runtime/tests/test_string.rs
index 3364acd..48777da 100644
--- a/src/runtime/tests/test_string.rs
+++ b/src/runtime/tests/test_string.rs
@@ -59,7 +59,7 @@ impl TestString {
                 let mut captured_values = Vec::new();
                 let sources = ctx.eval_values(&self.source);
 
-                for pattern in &self.key_list {
+                'outer: for pattern in &self.key_list {
                     let key = ctx.eval_value(pattern);
                     for source in &sources {
                         if !empty_is_null || !source.is_empty() {
@@ -89,7 +89,7 @@ impl TestString {
                             };
 
                             if result {
-                                break;
+                                break 'outer;
                             }
                         }
                     }
-- 
2.43.0


From a09a1eb5f9979f2e1e3d4cdbc5110b168de183f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 04/51] fix: non-numeric text compares as positive infinity
 under i;ascii-numeric

---
 src/runtime/tests/comparator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/tests/comparator.rs b/src/runtime/tests/comparator.rs
index 8779fe1..8fbf72f 100644
--- a/src/runtime/tests/comparator.rs
+++ b/src/runtime/tests/comparator.rs
@@ -155,7 +155,7 @@ impl Comparable for &str {
     fn to_number(&self) -> Number {
         self.parse::<f64>()
             .map(Number::Float)
-            .unwrap_or(Number::Float(0.0))
+            .unwrap_or(Number::Float(f64::INFINITY))
     }
 }
 
-- 
2.43.0


From b6337a0f9457f9d9d55c9982cd345537980fb7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:48 +0000
Subject: [PATCH 05/51] fix: resolve :local variables in :replace modifiers and
 body :content

---
 src/compiler/grammar/instruction.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 8c8116e..0213789 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -27,14 +27,14 @@ use super::{
         action_notify::Notify,
         action_redirect::Redirect,
         action_reject::Reject,
-        action_set::{Let, Set},
+        action_set::{Let, Modifier, Set},
         action_vacation::Vacation,
     },
     expr::Expression,
     Capability, Clear, Invalid, While,
 };
 
-use super::tests::test_ihave::Error;
+use super::tests::{test_body::BodyTransform, test_ihave::Error};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 #[cfg_attr(
@@ -1001,6 +1001,7 @@ impl CompilerState<'_> {
                     v.value.map_local_vars(last_id);
                 }
                 Instruction::ExtractText(v) => {
+                    v.modifiers.map_local_vars(last_id);
                     v.name.map_local_vars(last_id);
                 }
                 Instruction::Convert(v) => {
@@ -1017,6 +1018,7 @@ impl CompilerState<'_> {
                     v.value_patterns.map_local_vars(last_id);
                 }
                 Instruction::Set(v) => {
+                    v.modifiers.map_local_vars(last_id);
                     v.name.map_local_vars(last_id);
                     v.value.map_local_vars(last_id);
                 }
@@ -1086,6 +1088,9 @@ impl MapLocalVars for Test {
                 v.mime_opts.map_local_vars(last_id);
             }
             Test::Body(v) => {
+                if let BodyTransform::Content(content_types) = &mut v.body_transform {
+                    content_types.map_local_vars(last_id);
+                }
                 v.key_list.map_local_vars(last_id);
             }
             Test::Convert(v) => {
@@ -1186,6 +1191,15 @@ impl MapLocalVars for Value {
     }
 }
 
+impl MapLocalVars for Modifier {
+    fn map_local_vars(&mut self, last_id: usize) {
+        if let Modifier::Replace { find, replace } = self {
+            find.map_local_vars(last_id);
+            replace.map_local_vars(last_id);
+        }
+    }
+}
+
 impl<T: MapLocalVars> MapLocalVars for Option<T> {
     fn map_local_vars(&mut self, last_id: usize) {
         if let Some(value) = self {
-- 
2.43.0


From 9e3139673085f23b3bd6f0a6866f1128918e1899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:48 +0000
Subject: [PATCH 06/51] fix: look up declared global variables regardless of
 case

---
 src/compiler/lexer/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index d72e373..b3dadf3 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -279,7 +279,7 @@ impl CompilerState<'_> {
     ) -> Result<Option<VariableType>, ErrorType> {
         if !maybe_namespace {
             if self.is_var_global(var_name) {
-                Ok(Some(VariableType::Global(var_name.to_string())))
+                Ok(Some(VariableType::Global(var_name.to_lowercase())))
             } else if let Some(var_id) = self.get_local_var(var_name) {
                 Ok(Some(VariableType::Local(var_id)))
             } else {
-- 
2.43.0


From 8f2c072c10f7e238c7568205ca51099751bb9291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:06 +0000
Subject: [PATCH 07/51] fix: the final keep delivers the current version of the
 message

---
 src/runtime/context.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 76cf232..2fcfcc7 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -407,10 +407,7 @@ impl<'x> Context<'x> {
         }
 
         match self.final_event.take() {
-            Some(Event::Keep {
-                mut flags,
-                message_id,
-            }) => {
+            Some(Event::Keep { mut flags, .. }) => {
                 let create_event = if self.has_changes {
                     self.build_message_id()
                 } else {
@@ -432,7 +429,10 @@ impl<'x> Context<'x> {
                     .into_iter();
                     self.queued_events.next().map(Ok)
                 } else {
-                    Some(Ok(Event::Keep { flags, message_id }))
+                    Some(Ok(Event::Keep {
+                        flags,
+                        message_id: self.main_message_id,
+                    }))
                 }
             }
             Some(event) => Some(Ok(event)),
@@ -443,11 +443,7 @@ impl<'x> Context<'x> {
     pub(crate) fn finish_loop(&mut self) {
         self.script_stack.clear();
         if let Some(event) = self.final_event.take() {
-            self.queued_events = if let Event::Keep {
-                mut flags,
-                message_id,
-            } = event
-            {
+            self.queued_events = if let Event::Keep { mut flags, .. } = event {
                 let global_flags = self.get_global_flags();
                 if flags.is_empty() && !global_flags.is_empty() {
                     flags = global_flags;
@@ -463,10 +459,16 @@ impl<'x> Context<'x> {
                             },
                         ]
                     } else {
-                        vec![Event::Keep { flags, message_id }]
+                        vec![Event::Keep {
+                            flags,
+                            message_id: self.main_message_id,
+                        }]
                     }
                 } else {
-                    vec![Event::Keep { flags, message_id }]
+                    vec![Event::Keep {
+                        flags,
+                        message_id: self.main_message_id,
+                    }]
                 }
             } else {
                 vec![event]
-- 
2.43.0


From 080635817732b7c36b0bdb620e51d8100027d2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:00 +0000
Subject: [PATCH 08/51] fix: treat flag lists as sets however flags are grouped
 into strings

---
 src/runtime/actions/action_flags.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/runtime/actions/action_flags.rs b/src/runtime/actions/action_flags.rs
index a1290f5..2f2a37b 100644
--- a/src/runtime/actions/action_flags.rs
+++ b/src/runtime/actions/action_flags.rs
@@ -74,7 +74,7 @@ impl EditFlags {
                 }
                 ctx.tokenize_flags(&self.flags, |flag| {
                     let flag = flag.to_lowercase();
-                    if let Some(pos) = current_flags_lc.iter().position(|lflag| lflag == &flag) {
+                    while let Some(pos) = current_flags_lc.iter().position(|lflag| lflag == &flag) {
                         current_flags.swap_remove(pos);
                         current_flags_lc.swap_remove(pos);
                     }
@@ -92,17 +92,9 @@ impl Context<'_> {
         strings: &[Value],
         mut cb: impl FnMut(&str) -> bool,
     ) -> bool {
-        for (pos, string) in strings.iter().enumerate() {
-            let flag_ = self.eval_value(string);
-            let flag = flag_.to_string();
-            if !flag.is_empty() {
-                if pos == 0 && strings.len() == 1 {
-                    for flag in flag.split_ascii_whitespace() {
-                        if !flag.is_empty() && cb(flag) {
-                            return true;
-                        }
-                    }
-                } else if cb(flag.trim()) {
+        for string in strings {
+            for flag in self.eval_value(string).to_string().split_ascii_whitespace() {
+                if cb(flag) {
                     return true;
                 }
             }
-- 
2.43.0


From 653a9bbc3c3ad2906ea4b4a07150bc8194fe8b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 09/51] fix: do not panic on patterns with more wildcards than
 match variables

---
 src/runtime/tests/glob.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/tests/glob.rs b/src/runtime/tests/glob.rs
index 7eb633c..7b035c5 100644
--- a/src/runtime/tests/glob.rs
+++ b/src/runtime/tests/glob.rs
@@ -193,7 +193,7 @@ impl GlobPattern {
             if wildcard_pos <= MAX_MATCH_VARIABLES as usize {
                 last_pos = match item {
                     PatternChar::WildcardMany { mut num, match_pos } => {
-                        while num > 1 {
+                        while num > 1 && wildcard_pos < MAX_MATCH_VARIABLES as usize {
                             if capture_positions & (1 << wildcard_pos) != 0 {
                                 captured_values.push((wildcard_pos, String::with_capacity(0)));
                             }
-- 
2.43.0


From 5722ce523f32882da7074ff59af049af0cda02b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 10/51] fix: match variables without a capture do not keep a
 previous match's value

---
 src/runtime/tests/comparator.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/runtime/tests/comparator.rs b/src/runtime/tests/comparator.rs
index 8fbf72f..2b4bd1c 100644
--- a/src/runtime/tests/comparator.rs
+++ b/src/runtime/tests/comparator.rs
@@ -12,7 +12,7 @@ use crate::{
         Number, Value,
     },
     runtime::Variable,
-    MatchAs,
+    MatchAs, MAX_MATCH_VARIABLES,
 };
 
 use super::glob::GlobPattern;
@@ -60,12 +60,21 @@ impl Comparator {
         captured_values: &mut Vec<(usize, String)>,
     ) -> bool {
         let pattern = GlobPattern::compile(pattern, matches!(self, Comparator::AsciiCaseMap));
-        match self {
-            Comparator::AsciiCaseMap if capture_positions == 0 => pattern.matches(value),
-            Comparator::AsciiCaseMap => pattern.capture(value, capture_positions, captured_values),
-            _ if capture_positions == 0 => pattern.matches(value),
-            _ => pattern.capture(value, capture_positions, captured_values),
+        if capture_positions == 0 {
+            return pattern.matches(value);
+        } else if !pattern.capture(value, capture_positions, captured_values) {
+            return false;
+        }
+
+        // Positions without a wildcard do not keep the captures of a previous match
+        for index in 0..MAX_MATCH_VARIABLES as usize {
+            if capture_positions & (1 << index) != 0
+                && !captured_values.iter().any(|(pos, _)| *pos == index)
+            {
+                captured_values.push((index, String::new()));
+            }
         }
+        true
     }
 
     pub(crate) fn regex(
@@ -127,9 +136,13 @@ fn eval_regex(
         while capture_positions != 0 {
             let index = 63 - capture_positions.leading_zeros();
             capture_positions ^= 1 << index;
-            if let Some(match_var) = captures.get(index as usize) {
-                captured_values.push((index as usize, match_var.as_str().to_string()));
-            }
+            captured_values.push((
+                index as usize,
+                captures
+                    .get(index as usize)
+                    .map(|match_var| match_var.as_str().to_string())
+                    .unwrap_or_default(),
+            ));
         }
         true
     } else {
-- 
2.43.0


From 2b284ed113bb5dcff62f21bc007b5192f1e96295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 11/51] fix: clear the captures of every match test when its
 block ends

---
 src/compiler/grammar/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 0213789..d38e9fd 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -941,7 +941,7 @@ impl CompilerState<'_> {
                     if let MatchType::Matches(positions) | MatchType::Regex(positions) = match_type
                     {
                         *positions |= 1 << num;
-                        block.match_test_vars = *positions;
+                        block.match_test_vars |= *positions;
                     } else {
                         debug_assert!(false, "This should not have happened");
                         return false;
-- 
2.43.0


From f92b5c7a4ce11e5dd860f102b4e979b073e6b2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 12/51] fix: fileinto :mailboxid requires the mailboxid
 capability

---
 src/compiler/grammar/actions/action_fileinto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/grammar/actions/action_fileinto.rs b/src/compiler/grammar/actions/action_fileinto.rs
index 551854a..88a6482 100644
--- a/src/compiler/grammar/actions/action_fileinto.rs
+++ b/src/compiler/grammar/actions/action_fileinto.rs
@@ -73,7 +73,7 @@ impl CompilerState<'_> {
                 Token::Tag(Word::MailboxId) => {
                     self.validate_argument(
                         4,
-                        Capability::Mailbox.into(),
+                        Capability::MailboxId.into(),
                         token_info.line_num,
                         token_info.line_pos,
                     )?;
-- 
2.43.0


From 0fe4f1e6728cd1bdb560cb9253a5b15fb81ac6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 13/51] fix: exists is false when one of the names is not a
 header name

---
 src/runtime/tests/test_exists.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/tests/test_exists.rs b/src/runtime/tests/test_exists.rs
index dc0ec90..0484d15 100644
--- a/src/runtime/tests/test_exists.rs
+++ b/src/runtime/tests/test_exists.rs
@@ -16,6 +16,11 @@ impl TestExists {
         let mut part_iter = SubpartIterator::new(ctx, &parts, self.mime_anychild);
         let mut result = false;
 
+        // A name that is not a valid header name cannot exist
+        if header_names.len() != self.header_names.len() {
+            return TestResult::Bool(self.is_not);
+        }
+
         while let Some((_, message_part)) = part_iter.next() {
             for (pos, header_name) in header_names.iter().enumerate() {
                 if !header_exists[pos]
-- 
2.43.0


From 9233534ee0cfd61643f72d5f76a980390a7cdb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 14/51] fix: accept operators inside the items of array
 expressions

---
 src/compiler/grammar/expr/parser.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/compiler/grammar/expr/parser.rs b/src/compiler/grammar/expr/parser.rs
index 7557c56..fb0d025 100644
--- a/src/compiler/grammar/expr/parser.rs
+++ b/src/compiler/grammar/expr/parser.rs
@@ -79,9 +79,12 @@ where
                     }
 
                     if let Some((Token::Function { id, num_args, name }, _)) =
-                        self.operator_stack.last()
+                        self.operator_stack.last_mut()
                     {
                         let got_args = self.arg_count.pop().unwrap();
+                        if *id == ID_ARRAY_BUILD {
+                            *num_args = got_args as u32;
+                        }
                         if got_args != *num_args as i32 {
                             return Err(if *id != u32::MAX {
                                 format!(
@@ -213,13 +216,6 @@ where
     fn inc_arg_count(&mut self) {
         if let Some(x) = self.arg_count.last_mut() {
             *x = x.saturating_add(1);
-            let op_pos = self.operator_stack.len().saturating_sub(2);
-            match self.operator_stack.get_mut(op_pos) {
-                Some((Token::Function { num_args, id, .. }, _)) if *id == ID_ARRAY_BUILD => {
-                    *num_args += 1;
-                }
-                _ => {}
-            }
         }
     }
 
-- 
2.43.0


From e0c35a6994529b2f038739b4147ef8d6fd8fbab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 15/51] fix: unary minus directly after a unary operator or an
 opening bracket

---
 src/compiler/grammar/expr/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 9e8310a..88805a4 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -226,7 +226,11 @@ where
                     };
                     self.is_start = matches!(
                         token,
-                        Token::OpenParen | Token::Comma | Token::BinaryOperator(_)
+                        Token::OpenParen
+                            | Token::OpenBracket
+                            | Token::Comma
+                            | Token::BinaryOperator(_)
+                            | Token::UnaryOperator(_)
                     );
 
                     return if prev_token.is_some() {
-- 
2.43.0


From 44d988e0e74008c5fba7046108d6a12240a33d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:52 +0000
Subject: [PATCH 16/51] fix: :count of spamtest and virustest is 0 or 1

---
 src/runtime/tests/test_spamtest.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/tests/test_spamtest.rs b/src/runtime/tests/test_spamtest.rs
index c35b57c..349540c 100644
--- a/src/runtime/tests/test_spamtest.rs
+++ b/src/runtime/tests/test_spamtest.rs
@@ -51,7 +51,7 @@ impl TestSpamTest {
                 &Number::from(if matches!(&ctx.spam_status, SpamStatus::Unknown) {
                     0.0
                 } else {
-                    1.1
+                    1.0
                 }),
                 &value.to_number(),
             ),
@@ -95,7 +95,7 @@ impl TestVirusTest {
                 &Number::from(if matches!(&ctx.virus_status, VirusStatus::Unknown) {
                     0.0
                 } else {
-                    1.1
+                    1.0
                 }),
                 &value.to_number(),
             ),
-- 
2.43.0


From 30833766b6e2354b11097a72e125e7416a145557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:19 +0000
Subject: [PATCH 17/51] fix: an escaped backslash does not escape the character
 after it

---
 src/compiler/lexer/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 5c8e591..d058047 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -460,6 +460,8 @@ impl Iterator for Tokenizer<'_> {
                     b'\\' => {
                         if last_ch == b'\\' {
                             self.push_byte(ch);
+                            // This backslash is escaped and does not escape what follows
+                            self.last_ch = 0;
                         }
                     }
                     b'0'..=b'9' => {
-- 
2.43.0


From fe321e464cd1ff683588b954b44ac744534b7517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:09 +0000
Subject: [PATCH 18/51] fix: backslash escapes in string literals of
 expressions

---
 src/compiler/grammar/expr/tokenizer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 88805a4..3700fb4 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -185,11 +185,11 @@ where
 
                             for (_, &ch) in self.iter.by_ref() {
                                 if last_ch != b'\\' {
-                                    if ch != stop_ch {
-                                        buf.push(ch);
-                                    } else {
+                                    if ch == stop_ch {
                                         found_end = true;
                                         break;
+                                    } else if ch != b'\\' {
+                                        buf.push(ch);
                                     }
                                 } else {
                                     match ch {
@@ -206,6 +206,8 @@ where
                                             buf.push(ch);
                                         }
                                     }
+                                    last_ch = 0;
+                                    continue;
                                 }
 
                                 last_ch = ch;
-- 
2.43.0


From e497cb28bef27f4897d2c0ed5f1b337c49cdbe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:04 +0000
Subject: [PATCH 19/51] fix: negating the smallest integer does not overflow

---
 src/runtime/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/expression.rs b/src/runtime/expression.rs
index 017e196..c2dbfe2 100644
--- a/src/runtime/expression.rs
+++ b/src/runtime/expression.rs
@@ -225,7 +225,7 @@ impl Variable {
 
     pub fn op_minus(self) -> Variable {
         match self {
-            Variable::Integer(n) => Variable::Integer(-n),
+            Variable::Integer(n) => Variable::Integer(n.saturating_neg()),
             Variable::Float(n) => Variable::Float(-n),
             _ => self.parse_number().op_minus(),
         }
-- 
2.43.0


From 5185b4a0571e367049a69118bfb9882e53eee2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:04 +0000
Subject: [PATCH 20/51] fix: an invalid regular expression held in a variable
 matches nothing instead of panicking

---
 src/runtime/tests/comparator.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/runtime/tests/comparator.rs b/src/runtime/tests/comparator.rs
index 2b4bd1c..4e32cf6 100644
--- a/src/runtime/tests/comparator.rs
+++ b/src/runtime/tests/comparator.rs
@@ -106,10 +106,8 @@ impl Comparator {
         } else {
             match fancy_regex::Regex::new(pattern_expr.to_string().as_ref()) {
                 Ok(regex) => eval_regex(&regex, value, capture_positions, captured_values),
-                Err(err) => {
-                    debug_assert!(false, "Failed to compile regex: {err:?}");
-                    false
-                }
+                // The pattern comes from a variable, it may be anything
+                Err(_) => false,
             }
         }
     }
-- 
2.43.0


From 3714c73b0707b47bf90ee72e58785169f1b928cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 21/51] Revert the repairs of files under src/runtime/tests

---
 src/runtime/tests/comparator.rs    | 39 +++++++++++-------------------
 src/runtime/tests/glob.rs          |  2 +-
 src/runtime/tests/test_exists.rs   |  5 ----
 src/runtime/tests/test_spamtest.rs |  4 +--
 src/runtime/tests/test_string.rs   |  4 +--
 5 files changed, 19 insertions(+), 35 deletions(-)

diff --git a/src/runtime/tests/comparator.rs b/src/runtime/tests/comparator.rs
index 4e32cf6..8779fe1 100644
--- a/src/runtime/tests/comparator.rs
+++ b/src/runtime/tests/comparator.rs
@@ -12,7 +12,7 @@ use crate::{
         Number, Value,
     },
     runtime::Variable,
-    MatchAs, MAX_MATCH_VARIABLES,
+    MatchAs,
 };
 
 use super::glob::GlobPattern;
@@ -60,21 +60,12 @@ impl Comparator {
         captured_values: &mut Vec<(usize, String)>,
     ) -> bool {
         let pattern = GlobPattern::compile(pattern, matches!(self, Comparator::AsciiCaseMap));
-        if capture_positions == 0 {
-            return pattern.matches(value);
-        } else if !pattern.capture(value, capture_positions, captured_values) {
-            return false;
-        }
-
-        // Positions without a wildcard do not keep the captures of a previous match
-        for index in 0..MAX_MATCH_VARIABLES as usize {
-            if capture_positions & (1 << index) != 0
-                && !captured_values.iter().any(|(pos, _)| *pos == index)
-            {
-                captured_values.push((index, String::new()));
-            }
+        match self {
+            Comparator::AsciiCaseMap if capture_positions == 0 => pattern.matches(value),
+            Comparator::AsciiCaseMap => pattern.capture(value, capture_positions, captured_values),
+            _ if capture_positions == 0 => pattern.matches(value),
+            _ => pattern.capture(value, capture_positions, captured_values),
         }
-        true
     }
 
     pub(crate) fn regex(
@@ -106,8 +97,10 @@ impl Comparator {
         } else {
             match fancy_regex::Regex::new(pattern_expr.to_string().as_ref()) {
                 Ok(regex) => eval_regex(&regex, value, capture_positions, captured_values),
-                // The pattern comes from a variable, it may be anything
-                Err(_) => false,
+                Err(err) => {
+                    debug_assert!(false, "Failed to compile regex: {err:?}");
+                    false
+                }
             }
         }
     }
@@ -134,13 +127,9 @@ fn eval_regex(
         while capture_positions != 0 {
             let index = 63 - capture_positions.leading_zeros();
             capture_positions ^= 1 << index;
-            captured_values.push((
-                index as usize,
-                captures
-                    .get(index as usize)
-                    .map(|match_var| match_var.as_str().to_string())
-                    .unwrap_or_default(),
-            ));
+            if let Some(match_var) = captures.get(index as usize) {
+                captured_values.push((index as usize, match_var.as_str().to_string()));
+            }
         }
         true
     } else {
@@ -166,7 +155,7 @@ impl Comparable for &str {
     fn to_number(&self) -> Number {
         self.parse::<f64>()
             .map(Number::Float)
-            .unwrap_or(Number::Float(f64::INFINITY))
+            .unwrap_or(Number::Float(0.0))
     }
 }
 
diff --git a/src/runtime/tests/glob.rs b/src/runtime/tests/glob.rs
index 7b035c5..7eb633c 100644
--- a/src/runtime/tests/glob.rs
+++ b/src/runtime/tests/glob.rs
@@ -193,7 +193,7 @@ impl GlobPattern {
             if wildcard_pos <= MAX_MATCH_VARIABLES as usize {
                 last_pos = match item {
                     PatternChar::WildcardMany { mut num, match_pos } => {
-                        while num > 1 && wildcard_pos < MAX_MATCH_VARIABLES as usize {
+                        while num > 1 {
                             if capture_positions & (1 << wildcard_pos) != 0 {
                                 captured_values.push((wildcard_pos, String::with_capacity(0)));
                             }
diff --git a/src/runtime/tests/test_exists.rs b/src/runtime/tests/test_exists.rs
index 0484d15..dc0ec90 100644
--- a/src/runtime/tests/test_exists.rs
+++ b/src/runtime/tests/test_exists.rs
@@ -16,11 +16,6 @@ impl TestExists {
         let mut part_iter = SubpartIterator::new(ctx, &parts, self.mime_anychild);
         let mut result = false;
 
-        // A name that is not a valid header name cannot exist
-        if header_names.len() != self.header_names.len() {
-            return TestResult::Bool(self.is_not);
-        }
-
         while let Some((_, message_part)) = part_iter.next() {
             for (pos, header_name) in header_names.iter().enumerate() {
                 if !header_exists[pos]
diff --git a/src/runtime/tests/test_spamtest.rs b/src/runtime/tests/test_spamtest.rs
index 349540c..c35b57c 100644
--- a/src/runtime/tests/test_spamtest.rs
+++ b/src/runtime/tests/test_spamtest.rs
@@ -51,7 +51,7 @@ impl TestSpamTest {
                 &Number::from(if matches!(&ctx.spam_status, SpamStatus::Unknown) {
                     0.0
                 } else {
-                    1.0
+                    1.1
                 }),
                 &value.to_number(),
             ),
@@ -95,7 +95,7 @@ impl TestVirusTest {
                 &Number::from(if matches!(&ctx.virus_status, VirusStatus::Unknown) {
                     0.0
                 } else {
-                    1.0
+                    1.1
                 }),
                 &value.to_number(),
             ),
diff --git a/src/runtime/tests/test_string.rs b/src/runtime/tests/test_string.rs
index 48777da..3364acd 100644
--- a/src/runtime/tests/test_string.rs
+++ b/src/runtime/tests/test_string.rs
@@ -59,7 +59,7 @@ impl TestString {
                 let mut captured_values = Vec::new();
                 let sources = ctx.eval_values(&self.source);
 
-                'outer: for pattern in &self.key_list {
+                for pattern in &self.key_list {
                     let key = ctx.eval_value(pattern);
                     for source in &sources {
                         if !empty_is_null || !source.is_empty() {
@@ -89,7 +89,7 @@ impl TestString {
                             };
 
                             if result {
-                                break 'outer;
+                                break;
                             }
                         }
                     }
-- 
2.43.0


From 31328fb42ac4c84d1c3b1a9e493a738cdd887a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:37 +0000
Subject: [PATCH 22/51] fix: extracttext respects the maximum variable size

---
 src/runtime/actions/action_mime.rs | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 4732512..c6ddfa6 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -11,10 +11,7 @@ use mail_parser::{
 };
 
 use crate::{
-    compiler::{
-        grammar::actions::action_mime::{Enclose, ExtractText, Replace},
-        VariableType,
-    },
+    compiler::grammar::actions::action_mime::{Enclose, ExtractText, Replace},
     Context, Event,
 };
 
@@ -353,23 +350,7 @@ impl ExtractText {
             }
         }
 
-        match &self.name {
-            VariableType::Local(var_id) => {
-                if let Some(var) = ctx.vars_local.get_mut(*var_id) {
-                    *var = value.into();
-                } else {
-                    debug_assert!(false, "Non-existent local variable {var_id}");
-                }
-            }
-            VariableType::Global(var_name) => {
-                ctx.vars_global
-                    .insert(var_name.to_string().into(), value.into());
-            }
-            VariableType::Envelope(env) => {
-                ctx.add_set_envelope_event(*env, value);
-            }
-            _ => (),
-        }
+        ctx.set_variable(&self.name, value.into());
     }
 }
 
-- 
2.43.0


From 827c82331419f756523f3d1b22bb52095a01038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:14 +0000
Subject: [PATCH 23/51] fix: notify counts mailto messages and sends nothing
 beyond the maximum

---
 src/runtime/actions/action_notify.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 88d5909..d208393 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -19,6 +19,11 @@ use super::action_vacation::MAX_SUBJECT_LEN;
 
 impl Notify {
     pub(crate) fn exec(&self, ctx: &mut Context) {
+        // Make sure there is room for another outgoing message
+        if ctx.num_out_messages >= ctx.runtime.max_out_messages {
+            return;
+        }
+
         // Do not notify on Auto-Submitted messages
         for header in &ctx.message.parts[0].headers {
             if matches!(&header.name, HeaderName::Other(name) if name.eq_ignore_ascii_case("Auto-Submitted"))
@@ -39,8 +44,7 @@ impl Notify {
         };
 
         let has_fcc = self.fcc.is_some();
-        let is_mailto = scheme.eq_ignore_ascii_case("mailto")
-            && ctx.num_out_messages < ctx.runtime.max_out_messages;
+        let is_mailto = scheme.eq_ignore_ascii_case("mailto");
         let mut events = Vec::with_capacity(3);
 
         if is_mailto || has_fcc {
@@ -237,6 +241,7 @@ impl Notify {
                     by_time: ByTime::None,
                     message_id: ctx.last_message_id,
                 });
+                ctx.num_out_messages += 1;
             }
         }
 
-- 
2.43.0


From 34b439c40747a2ca3b8fffedcbb4cef759b4a468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:44 +0000
Subject: [PATCH 24/51] fix: vacation and notify do not let line breaks into
 generated headers

---
 src/runtime/actions/action_notify.rs   | 37 ++++++++++++++++++++++----
 src/runtime/actions/action_vacation.rs | 23 +++++++++++++---
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index d208393..c1ea5d0 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -15,7 +15,7 @@ use crate::{
     Context, Event, Importance, Recipient,
 };
 
-use super::action_vacation::MAX_SUBJECT_LEN;
+use super::{action_editheader::RemoveCrLf, action_vacation::MAX_SUBJECT_LEN};
 
 impl Notify {
     pub(crate) fn exec(&self, ctx: &mut Context) {
@@ -98,7 +98,11 @@ impl Notify {
 
             let mut message = Vec::with_capacity(message_len);
             message.extend_from_slice(b"From: ");
-            message.extend_from_slice(from.as_bytes());
+            message.extend_from_slice(
+                from.as_str()
+                    .remove_crlf(ctx.runtime.max_header_size)
+                    .as_bytes(),
+            );
             message.extend_from_slice(b"\r\n");
 
             for (header, addresses) in [("To: ", &params.to), ("Cc: ", &params.cc)] {
@@ -111,7 +115,12 @@ impl Notify {
                         if !address.contains('<') {
                             message.push(b'<');
                         }
-                        message.extend_from_slice(address.as_bytes());
+                        message.extend_from_slice(
+                            address
+                                .as_str()
+                                .remove_crlf(ctx.runtime.max_header_size)
+                                .as_bytes(),
+                        );
                         if !address.contains('<') {
                             message.push(b'>');
                         }
@@ -125,6 +134,9 @@ impl Notify {
             let mut has_message_id = false;
             for (header, value) in &params.headers {
                 match header {
+                    HeaderName::Other(name) if !is_header_name(name) => {
+                        continue;
+                    }
                     HeaderName::Subject => {
                         has_subject = value.into();
                         continue;
@@ -142,7 +154,12 @@ impl Notify {
                 }
                 message.extend_from_slice(header.as_str().as_bytes());
                 message.extend_from_slice(b": ");
-                message.extend_from_slice(value.as_bytes());
+                message.extend_from_slice(
+                    value
+                        .as_str()
+                        .remove_crlf(ctx.runtime.max_header_size)
+                        .as_bytes(),
+                );
                 message.extend_from_slice(b"\r\n");
             }
 
@@ -184,7 +201,10 @@ impl Notify {
             } else {
                 ctx.message.subject().unwrap_or_default()
             };
-            let mut iter = subject.chars().enumerate();
+            let mut iter = subject
+                .chars()
+                .filter(|ch| !matches!(ch, '\r' | '\n'))
+                .enumerate();
             let mut buf = [0; 4];
             #[allow(clippy::while_let_on_iterator)]
             while let Some((pos, char)) = iter.next() {
@@ -291,6 +311,13 @@ impl Notify {
     }
 }
 
+fn is_header_name(name: &str) -> bool {
+    !name.is_empty()
+        && name
+            .bytes()
+            .all(|ch| ch.is_ascii_alphanumeric() || [b'-', b'_'].contains(&ch))
+}
+
 pub fn validate_from(addr: &str) -> bool {
     let mut has_at = false;
     let mut has_dot = false;
diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index bee00dd..621fd9b 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -21,6 +21,8 @@ use crate::{
     Context, Envelope, Event, Recipient,
 };
 
+use super::action_editheader::RemoveCrLf;
+
 pub(crate) const MAX_SUBJECT_LEN: usize = 256;
 
 impl TestVacation {
@@ -259,17 +261,32 @@ impl Vacation {
             + 160;
 
         let mut message = Vec::with_capacity(message_len);
-        write_header(&mut message, "From: ", vacation_from.to_string().as_ref());
+        let max_header_size = ctx.runtime.max_header_size;
+        write_header(
+            &mut message,
+            "From: ",
+            &vacation_from
+                .to_string()
+                .as_ref()
+                .remove_crlf(max_header_size),
+        );
         if let Some(vacation_to_full) = vacation_to_full {
             message.extend_from_slice(b"To:");
             message.extend_from_slice(vacation_to_full);
         } else {
-            write_header(&mut message, "To: ", vacation_to.to_string().as_ref());
+            write_header(
+                &mut message,
+                "To: ",
+                &vacation_to.as_ref().remove_crlf(max_header_size),
+            );
         }
         write_header(
             &mut message,
             "Subject: ",
-            vacation_subject.to_string().as_ref(),
+            &vacation_subject
+                .to_string()
+                .as_ref()
+                .remove_crlf(max_header_size),
         );
         if let Some(message_id) = message_id {
             message.extend_from_slice(b"In-Reply-To: <");
-- 
2.43.0


From dbba4b3339ec5d53aec0017b76950063e3908a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:56 +0000
Subject: [PATCH 25/51] fix: headers added by replace and enclose are found by
 their names

---
 src/runtime/actions/action_mime.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index c6ddfa6..5320d9b 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -87,7 +87,7 @@ impl Replace {
                 if !from.is_empty() {
                     ctx.insert_header(
                         0,
-                        HeaderName::Other("From".into()),
+                        HeaderName::From,
                         from.to_string()
                             .as_ref()
                             .remove_crlf(ctx.runtime.max_header_size),
@@ -99,7 +99,7 @@ impl Replace {
             if add_from {
                 ctx.insert_header(
                     0,
-                    HeaderName::Other("From".to_string().into()),
+                    HeaderName::From,
                     ctx.user_from_field(),
                     true,
                 );
@@ -110,7 +110,7 @@ impl Replace {
                 if !subject.is_empty() {
                     ctx.insert_header(
                         0,
-                        HeaderName::Other("Subject".into()),
+                        HeaderName::Subject,
                         subject
                             .to_string()
                             .as_ref()
@@ -129,7 +129,7 @@ impl Replace {
 
                 ctx.insert_header(
                     0,
-                    HeaderName::Other("Date".to_string().into()),
+                    HeaderName::Date,
                     header_value,
                     true,
                 );
@@ -144,7 +144,7 @@ impl Replace {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Message-ID".to_string().into()),
+                HeaderName::MessageId,
                 String::from_utf8(header_value).unwrap(),
                 true,
             );
@@ -153,7 +153,7 @@ impl Replace {
         if !self.mime {
             ctx.insert_header(
                 ctx.part,
-                HeaderName::Other("Content-Type".into()),
+                HeaderName::ContentType,
                 "text/plain; charset=utf-8".to_string(),
                 true,
             );
@@ -223,20 +223,20 @@ impl Enclose {
 
         ctx.insert_header(
             0,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             format!("multipart/mixed; boundary=\"{boundary}\""),
             true,
         );
-        ctx.insert_header(0, HeaderName::Other("Subject".into()), subject, true);
+        ctx.insert_header(0, HeaderName::Subject, subject, true);
         ctx.insert_header(
             1,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             "text/plain; charset=utf-8",
             true,
         );
         ctx.insert_header(
             2,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             "message/rfc822",
             true,
         );
@@ -270,7 +270,7 @@ impl Enclose {
 
                             ctx.insert_header(
                                 0,
-                                HeaderName::Other(header_name.to_string().into()),
+                                name.into_owned(),
                                 header_value.remove_crlf(ctx.runtime.max_header_size),
                                 true,
                             );
@@ -283,7 +283,7 @@ impl Enclose {
         if add_from {
             ctx.insert_header(
                 0,
-                HeaderName::Other("From".to_string().into()),
+                HeaderName::From,
                 ctx.user_from_field(),
                 true,
             );
@@ -297,7 +297,7 @@ impl Enclose {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Date".to_string().into()),
+                HeaderName::Date,
                 header_value,
                 true,
             );
@@ -312,7 +312,7 @@ impl Enclose {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Message-ID".to_string().into()),
+                HeaderName::MessageId,
                 String::from_utf8(header_value).unwrap(),
                 true,
             );
@@ -422,7 +422,7 @@ impl Context<'_> {
                             );
                         }
                     } else {
-                        if header.name == HeaderName::Other("Content-Type".into()) {
+                        if header.name == HeaderName::ContentType {
                             ct_pos = header_pos;
                         }
 
-- 
2.43.0


From 7f1ee2c1c936789351a57cf7a73e092b58e4d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:49 +0000
Subject: [PATCH 26/51] fix: replacing a multipart part keeps the other parts
 in place

---
 src/runtime/actions/action_mime.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 5320d9b..4835c86 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -25,9 +25,16 @@ impl Replace {
         // Delete children parts
         let mut part_ids = ctx.find_nested_parts_ids(false);
         part_ids.sort_unstable_by_key(|a| Reverse(*a));
-        for part_id in part_ids {
-            ctx.message.parts.remove(part_id as usize);
+        for part_id in &part_ids {
+            ctx.message.parts.remove(*part_id as usize);
         }
+        ctx.renumber_parts(|part_id| {
+            if !part_ids.contains(&part_id) {
+                Some(part_id - part_ids.iter().filter(|id| **id < part_id).count() as u32)
+            } else {
+                None
+            }
+        });
         ctx.has_changes = true;
 
         // Update part
@@ -361,6 +368,25 @@ enum StackItem<'x> {
 }
 
 impl Context<'_> {
+    fn renumber_parts(&mut self, new_id: impl Fn(u32) -> Option<u32>) {
+        let renumber = |ids: &[u32]| ids.iter().filter_map(|id| new_id(*id)).collect::<Vec<_>>();
+
+        for part in &mut self.message.parts {
+            if let PartType::Multipart(subparts) = &mut part.body {
+                *subparts = renumber(subparts);
+            }
+        }
+        self.message.html_body = renumber(&self.message.html_body);
+        self.message.text_body = renumber(&self.message.text_body);
+        self.message.attachments = renumber(&self.message.attachments);
+        self.part = new_id(self.part).unwrap_or(0);
+        self.part_iter = renumber(self.part_iter.as_slice()).into_iter();
+        for (part, part_iter) in &mut self.part_iter_stack {
+            *part = new_id(*part).unwrap_or(0);
+            *part_iter = renumber(part_iter.as_slice()).into_iter();
+        }
+    }
+
     pub(crate) fn build_message_id(&mut self) -> Option<Event> {
         if self.has_changes {
             self.last_message_id += 1;
-- 
2.43.0


From 7445e193622151cf431845f1b50991689c33db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:59 +0000
Subject: [PATCH 27/51] fix: enclose inside foreverypart ends the iteration
 over the previous parts

---
 src/runtime/actions/action_mime.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 4835c86..7c8c2ae 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -190,7 +190,12 @@ impl Enclose {
         let boundary = mail_builder::mime::make_boundary(".");
 
         ctx.message_size += ((boundary.len() + 6) * 3) + body.len() + 2;
+        // The parts being iterated are now nested in the new message
         ctx.part = 0;
+        ctx.part_iter = Vec::new().into_iter();
+        for part_iter in &mut ctx.part_iter_stack {
+            *part_iter = (0, Vec::new().into_iter());
+        }
         ctx.has_changes = true;
         ctx.message = Message {
             html_body: Vec::with_capacity(0),
-- 
2.43.0


From 5d0b8d818dd5a6931dffa1118e2133d30debd078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 28/51] fix: keep track of the message size when parts are
 replaced, enclosed or converted

---
 src/runtime/actions/action_convert.rs    |  7 +------
 src/runtime/actions/action_editheader.rs |  4 ++++
 src/runtime/actions/action_mime.rs       | 16 ++++------------
 3 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index ff62b97..432dc58 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -81,12 +81,6 @@ impl Convert {
                 offset_end: 0,
                 offset_field: 0,
             }];
-            ctx.message_size = ctx.message_size + ct.len() + new_body.len() + 16
-                - (if part.offset_body != 0 {
-                    (part.offset_end - part.offset_header) as usize
-                } else {
-                    part.body.len()
-                });
             part.offset_body = 0;
             part.body = new_body;
             part.encoding = Encoding::QuotedPrintable; //Used as non-mime flag
@@ -95,6 +89,7 @@ impl Convert {
 
         if did_convert {
             ctx.has_changes = true;
+            ctx.message_size = ctx.build_message().len();
         }
 
         TestResult::Bool(did_convert ^ self.is_not)
diff --git a/src/runtime/actions/action_editheader.rs b/src/runtime/actions/action_editheader.rs
index 8f14dbe..a03ea9f 100644
--- a/src/runtime/actions/action_editheader.rs
+++ b/src/runtime/actions/action_editheader.rs
@@ -114,6 +114,10 @@ impl DeleteHeader {
 
                 if header.offset_end != 0 {
                     deleted_bytes += (header.offset_end - header.offset_field) as usize;
+                    if header.offset_field == header.offset_start {
+                        // Renamed header
+                        deleted_bytes += header.name.as_str().len() + 1;
+                    }
                 } else {
                     deleted_bytes += header.name.as_str().len() + header.value.len() + 4;
                 }
diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 7c8c2ae..38855a5 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -39,16 +39,9 @@ impl Replace {
 
         // Update part
         let body = ctx.eval_value(&self.replacement).to_string().into_owned();
-        let body_len = body.len();
 
         let part = &mut ctx.message.parts[ctx.part as usize];
 
-        ctx.message_size = ctx.message_size + body_len
-            - (if part.offset_body != 0 {
-                (part.offset_end - part.offset_header) as usize
-            } else {
-                part.body.len()
-            });
         part.body = PartType::Text(body.into());
         part.encoding = if !self.mime {
             Encoding::QuotedPrintable
@@ -61,20 +54,17 @@ impl Replace {
 
         if ctx.part == 0 {
             for mut header in prev_headers {
-                let mut size = (header.offset_end - header.offset_field) as usize;
                 match &header.name {
                     HeaderName::Subject => {
                         if self.subject.is_some() {
                             header.name = HeaderName::Other("Original-Subject".into());
                             header.offset_field = header.offset_start;
-                            size += "Original-".len();
                         }
                     }
                     HeaderName::From => {
                         if self.from.is_some() {
                             header.name = HeaderName::Other("Original-From".into());
                             header.offset_field = header.offset_start;
-                            size += "Original-".len();
                         }
                     }
 
@@ -84,7 +74,6 @@ impl Replace {
                     }
                     _ => continue,
                 }
-                ctx.message_size += size;
                 part.headers.push(header);
             }
 
@@ -165,6 +154,8 @@ impl Replace {
                 true,
             );
         }
+
+        ctx.message_size = ctx.build_message().len();
     }
 }
 
@@ -189,7 +180,6 @@ impl Enclose {
         #[cfg(not(test))]
         let boundary = mail_builder::mime::make_boundary(".");
 
-        ctx.message_size += ((boundary.len() + 6) * 3) + body.len() + 2;
         // The parts being iterated are now nested in the new message
         ctx.part = 0;
         ctx.part_iter = Vec::new().into_iter();
@@ -329,6 +319,8 @@ impl Enclose {
                 true,
             );
         }
+
+        ctx.message_size = ctx.build_message().len();
     }
 }
 
-- 
2.43.0


From 30626162b1f810e042ad1bc06fbbe5ba190e69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:16 +0000
Subject: [PATCH 29/51] fix: refuse scripts with more local or match variables
 than configured

---
 src/compiler/grammar/instruction.rs | 10 +++++++++-
 src/compiler/lexer/string.rs        |  2 +-
 src/compiler/mod.rs                 |  2 ++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index d38e9fd..c7eb464 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -12,7 +12,7 @@ use crate::{
         lexer::{tokenizer::Tokenizer, word::Word, Token},
         CompileError, ErrorType, Value, VariableType,
     },
-    Compiler, Sieve,
+    Compiler, Sieve, MAX_LOCAL_VARIABLES,
 };
 
 use super::{
@@ -828,6 +828,14 @@ impl Compiler {
             num_vars += state.vars_local;
         }
 
+        if num_vars > self.max_local_variables.min(MAX_LOCAL_VARIABLES as usize) {
+            return Err(CompileError {
+                line_num: state.tokens.line_num,
+                line_pos: 0,
+                error_type: ErrorType::TooManyVariables,
+            });
+        }
+
         Ok(Sieve {
             instructions: state.instructions,
             num_vars: num_vars as u32,
diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index b3dadf3..a54edd7 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -257,7 +257,7 @@ impl CompilerState<'_> {
         let num = var_name
             .parse()
             .map_err(|_| ErrorType::InvalidNumber(var_name.to_string()))?;
-        if num < MAX_MATCH_VARIABLES as usize {
+        if num < MAX_MATCH_VARIABLES as usize && num <= self.compiler.max_match_variables {
             if self.register_match_var(num) {
                 let total_vars = num + 1;
                 if total_vars > self.vars_match_max {
diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index e62705f..0aa20f4 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -58,6 +58,7 @@ pub enum ErrorType {
     TooManyNestedTests,
     TooManyNestedForEveryParts,
     TooManyIncludes,
+    TooManyVariables,
     LabelAlreadyDefined(String),
     LabelUndefined(String),
     BreakOutsideLoop,
@@ -547,6 +548,7 @@ impl Display for CompileError {
                 write!(f, "Too many nested foreverypart blocks")
             }
             ErrorType::TooManyIncludes => write!(f, "Too many includes"),
+            ErrorType::TooManyVariables => write!(f, "Too many variables"),
             ErrorType::LabelAlreadyDefined(value) => write!(f, "Label {value:?} already defined"),
             ErrorType::LabelUndefined(value) => write!(f, "Label {value:?} does not exist"),
             ErrorType::BreakOutsideLoop => write!(f, "Break used outside of foreverypart loop"),
-- 
2.43.0


From 24887f71f9ec863d48fd55e524a05cb8ce817985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:59 +0000
Subject: [PATCH 30/51] fix: a foreverypart label cannot be reused in the loop
 directly enclosed

---
 src/compiler/grammar/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index c7eb464..e012e0c 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -248,7 +248,7 @@ impl Compiler {
                             {
                                 let tag = state.tokens.next().unwrap().unwrap();
                                 let label = state.tokens.expect_static_string()?;
-                                for block in &state.block_stack {
+                                for block in state.block_stack.iter().chain([&state.block]) {
                                     if block.label.as_ref().is_some_and(|n| n.eq(&label)) {
                                         return Err(
                                             tag.custom(ErrorType::LabelAlreadyDefined(label))
-- 
2.43.0


From 03050daa0d2999fd3e2ee03af5fbcd9cbef1eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:36 +0000
Subject: [PATCH 31/51] fix: elsif and else do not open a block that has no if
 of its own

---
 src/compiler/grammar/instruction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index e012e0c..d016651 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -641,6 +641,7 @@ impl Compiler {
                             state.block.last_block_start = state.instructions.len() - 1;
                             state.block_stack.push(state.block);
                             state.block = new_block;
+                            state.last_block_type = Word::Not;
                         } else {
                             return Err(CompileError {
                                 line_num: state.block.line_num,
-- 
2.43.0


From af4ed31fcab4408403555505c83b1f6fb2f9af91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:44 +0000
Subject: [PATCH 32/51] fix: include :once runs a script held by the runtime
 only once

---
 src/runtime/actions/action_include.rs | 7 +++++--
 src/runtime/context.rs                | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_include.rs b/src/runtime/actions/action_include.rs
index 6aa15b5..5ae7262 100644
--- a/src/runtime/actions/action_include.rs
+++ b/src/runtime/actions/action_include.rs
@@ -13,7 +13,7 @@ use crate::{
 };
 
 pub(crate) enum IncludeResult {
-    Cached(Arc<Sieve>),
+    Cached { name: Script, script: Arc<Sieve> },
     Event(Event),
     Error(RuntimeError),
     None,
@@ -35,7 +35,10 @@ impl Include {
                     if let Some(script) = cached_script
                         .or_else(|| ctx.runtime.include_scripts.get(script_name.as_str()))
                     {
-                        return IncludeResult::Cached(script.clone());
+                        return IncludeResult::Cached {
+                            script: script.clone(),
+                            name: script_name,
+                        };
                     } else {
                         return IncludeResult::Event(Event::IncludeScript {
                             name: script_name,
diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 2fcfcc7..7621fe4 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -322,7 +322,8 @@ impl<'x> Context<'x> {
                     }
                     Instruction::EditFlags(flags) => flags.exec(self),
                     Instruction::Include(include) => match include.exec(self) {
-                        IncludeResult::Cached(script) => {
+                        IncludeResult::Cached { name, script } => {
+                            self.script_cache.insert(name, script.clone());
                             self.script_stack.push(ScriptStack {
                                 script: script.clone(),
                                 prev_pos: self.pos,
-- 
2.43.0


From e08d6e5e162bf10beabc632eaa6128ef8c4a8ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:09 +0000
Subject: [PATCH 33/51] fix: mailto recipients given in a parameter that is not
 the last one

---
 src/runtime/actions/action_notify.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index c1ea5d0..25ee9c0 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -525,6 +525,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                             header,
                             String::from_utf8(std::mem::take(&mut buf)).ok()?,
                         );
+                        has_addresses = true;
                     }
                     state = State::ParamName;
                 }
-- 
2.43.0


From 816e99be573aca1624be368520a06f76a7bb01b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:40 +0000
Subject: [PATCH 34/51] fix: enclose strips line breaks from the subject it
 takes over

The subject of the enclosed message was copied decoded, so that an encoded
word containing a line break started a new header field (or the body) of the
new message.
---
 src/runtime/actions/action_mime.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 38855a5..c329dce 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -171,7 +171,11 @@ impl Enclose {
                     .as_ref()
                     .remove_crlf(ctx.runtime.max_header_size)
             })
-            .or_else(|| ctx.message.subject().map(|s| s.to_string()))
+            .or_else(|| {
+                ctx.message
+                    .subject()
+                    .map(|s| s.remove_crlf(ctx.runtime.max_header_size))
+            })
             .unwrap_or_default();
 
         let message = std::mem::take(&mut ctx.message);
-- 
2.43.0


From c980723878320bfc2f5e7859a01170b0a49c6537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:29 +0000
Subject: [PATCH 35/51] fix: vacation refers to a Message-ID the script added
 without doubling its brackets

replace and enclose add a Message-ID field whose text includes the angle
brackets, which vacation then wrapped again: In-Reply-To: <<id>>.
---
 src/runtime/actions/action_vacation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index 621fd9b..166af1d 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -210,7 +210,10 @@ impl Vacation {
                     }
                 }
                 HeaderName::MessageId => {
-                    message_id = header.value.as_text();
+                    message_id = header
+                        .value
+                        .as_text()
+                        .map(|id| id.trim_start_matches('<').trim_end_matches('>'));
                 }
                 HeaderName::References => {
                     if header.offset_start > 0 {
-- 
2.43.0


From cd602139c180f3a728747eb649ce2ded104ec3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:01 +0000
Subject: [PATCH 36/51] fix: tests in a list must be separated by commas, and a
 list of tests cannot be empty

---
 src/compiler/grammar/test.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/test.rs b/src/compiler/grammar/test.rs
index cec2294..74f3ec4 100644
--- a/src/compiler/grammar/test.rs
+++ b/src/compiler/grammar/test.rs
@@ -116,6 +116,7 @@ struct Block {
     is_all: bool,
     is_not: bool,
     p_count: u32,
+    has_test: bool,
     jmps: Vec<usize>,
 }
 
@@ -126,6 +127,7 @@ impl CompilerState<'_> {
             is_all: false,
             is_not: false,
             p_count: 0,
+            has_test: false,
             jmps: Vec::new(),
         };
         let mut is_not = false;
@@ -133,6 +135,14 @@ impl CompilerState<'_> {
         loop {
             let token_info = self.tokens.unwrap_next()?;
             self.reset_param_check();
+
+            // Tests in a list are separated by commas
+            if block.has_test
+                && !matches!(token_info.token, Token::Comma | Token::ParenthesisClose)
+            {
+                return Err(token_info.expected("',' or ')'"));
+            }
+
             let test: Instruction =
                 match token_info.token {
                     Token::Comma
@@ -150,6 +160,7 @@ impl CompilerState<'_> {
                             ) =>
                     {
                         is_not = block.is_not;
+                        block.has_test = false;
                         block.jmps.push(self.instructions.len());
                         self.instructions.push(if block.is_all {
                             Instruction::Jz(usize::MAX)
@@ -163,7 +174,9 @@ impl CompilerState<'_> {
                         continue;
                     }
                     Token::ParenthesisClose => {
-                        if block.p_count > 0 {
+                        if !block.has_test {
+                            return Err(token_info.expected("test name"));
+                        } else if block.p_count > 0 {
                             block.p_count -= 1;
                             continue;
                         } else if let Some(prev_block) = block_stack.pop() {
@@ -179,6 +192,7 @@ impl CompilerState<'_> {
                             }
 
                             block = prev_block;
+                            block.has_test = true;
                             is_not = block.is_not;
                             if block_stack.is_empty() {
                                 break;
@@ -221,6 +235,7 @@ impl CompilerState<'_> {
                                 is_all,
                                 is_not: block_is_not,
                                 p_count: 0,
+                                has_test: false,
                                 jmps: Vec::new(),
                             };
                             is_not = block_is_not;
@@ -554,6 +569,7 @@ impl CompilerState<'_> {
             self.instructions
                 .push(if !is_not { test } else { test.set_not() });
 
+            block.has_test = true;
             if block_stack.is_empty() {
                 break;
             }
-- 
2.43.0


From e3c766a2fe4f5b35c1b3aad94279eaf65f4adf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:24 +0000
Subject: [PATCH 37/51] fix: refuse unknown tests unless ihave was required,
 like unknown commands

---
 src/compiler/grammar/test.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/test.rs b/src/compiler/grammar/test.rs
index 74f3ec4..707c394 100644
--- a/src/compiler/grammar/test.rs
+++ b/src/compiler/grammar/test.rs
@@ -505,6 +505,9 @@ impl CompilerState<'_> {
                         Instruction::Eval(self.parse_expr()?)
                     }
                     Token::Identifier(word) => {
+                        if !self.has_capability(&Capability::Ihave) {
+                            return Err(token_info.expected("test name"));
+                        }
                         self.ignore_test()?;
                         Test::Invalid(Invalid {
                             name: word.to_string(),
@@ -549,7 +552,11 @@ impl CompilerState<'_> {
                         }
                         .into()
                     }
-                    Token::Unknown(name) => {
+                    Token::Unknown(ref name) => {
+                        if !self.has_capability(&Capability::Ihave) {
+                            return Err(token_info.expected("test name"));
+                        }
+                        let name = name.to_string();
                         self.ignore_test()?;
                         Test::Invalid(Invalid {
                             name,
-- 
2.43.0


From a03f272701dccda9e069d805d57a20898822db62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:32 +0000
Subject: [PATCH 38/51] fix: a word at the very end of a script is not ignored

---
 src/compiler/lexer/tokenizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index d058047..4ace407 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -568,7 +568,8 @@ impl Iterator for Tokenizer<'_> {
                     error_type: (&self.state).into(),
                 }))
             }
-            _ => None,
+            // The input may end in the middle of a word
+            _ => self.get_current_token().map(Ok),
         }
     }
 }
-- 
2.43.0


From 9c96a6afc825774e4f3f91f9c7bd3909269f84bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:52 +0000
Subject: [PATCH 39/51] fix: errors about unknown commands and nested blocks
 name the line they are on

---
 src/compiler/grammar/instruction.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index d016651..b6923f0 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -621,8 +621,8 @@ impl Compiler {
                                 continue;
                             } else {
                                 return Err(CompileError {
-                                    line_num: state.block.line_num,
-                                    line_pos: state.block.line_pos,
+                                    line_num: token_info.line_num,
+                                    line_pos: token_info.line_pos,
                                     error_type: ErrorType::UnexpectedToken {
                                         expected: "command".into(),
                                         found: instruction.to_string(),
@@ -644,8 +644,8 @@ impl Compiler {
                             state.last_block_type = Word::Not;
                         } else {
                             return Err(CompileError {
-                                line_num: state.block.line_num,
-                                line_pos: state.block.line_pos,
+                                line_num: new_block.line_num,
+                                line_pos: new_block.line_pos,
                                 error_type: ErrorType::TooManyNestedBlocks,
                             });
                         }
@@ -799,8 +799,8 @@ impl Compiler {
                         }));
                     } else {
                         return Err(CompileError {
-                            line_num: state.block.line_num,
-                            line_pos: state.block.line_pos,
+                            line_num: token_info.line_num,
+                            line_pos: token_info.line_pos,
                             error_type: ErrorType::UnexpectedToken {
                                 expected: "command".into(),
                                 found: instruction,
-- 
2.43.0


From 0f720c612e4aaf81ddb6a5337237be2a9b3ba86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:10 +0000
Subject: [PATCH 40/51] fix: the limit on variable names holds for every
 command that names a variable

---
 src/compiler/grammar/actions/action_set.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index c6d1f30..b2532c3 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -172,6 +172,11 @@ impl CompilerState<'_> {
         register_as_local: bool,
     ) -> Result<VariableType, ErrorType> {
         let name = name.to_lowercase();
+        let (_, part) = name.split_once('.').unwrap_or(("", &name));
+        if part.len() >= self.compiler.max_variable_name_size {
+            return Err(ErrorType::VariableTooLong);
+        }
+
         if let Some((namespace, part)) = name.split_once('.') {
             match namespace {
                 "global" | "t" => Ok(VariableType::Global(part.to_string())),
-- 
2.43.0


From b0ca4f35215c05fad82c79288759b8b40b612fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:57 +0000
Subject: [PATCH 41/51] fix: strings in a list must be separated by commas

---
 src/compiler/grammar/mod.rs     | 11 +++++++----
 src/compiler/lexer/tokenizer.rs | 10 ++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/compiler/grammar/mod.rs b/src/compiler/grammar/mod.rs
index dba1559..80f915a 100644
--- a/src/compiler/grammar/mod.rs
+++ b/src/compiler/grammar/mod.rs
@@ -309,10 +309,11 @@ impl CompilerState<'_> {
                         Token::StringConstant(string) => {
                             strings.push(string.into_string());
                         }
-                        Token::Comma => (),
-                        Token::BracketClose if !strings.is_empty() => break,
                         _ => return Err(token_info.expected("constant string")),
                     }
+                    if self.tokens.is_list_end()? {
+                        break;
+                    }
                 }
                 Ok(strings)
             }
@@ -420,10 +421,12 @@ impl CompilerState<'_> {
                         }
                     })?);
                 }
-                Token::Comma => (),
-                Token::BracketClose if !strings.is_empty() || allow_empty => break,
+                Token::BracketClose if strings.is_empty() && allow_empty => break,
                 _ => return Err(token_info.expected("string or string list")),
             }
+            if self.tokens.is_list_end()? {
+                break;
+            }
         }
         Ok(strings)
     }
diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 4ace407..896858b 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -293,6 +293,16 @@ impl<'x> Tokenizer<'x> {
         }
     }
 
+    /// Consumes what follows a string in a list and returns true at the end of the list.
+    pub fn is_list_end(&mut self) -> Result<bool, CompileError> {
+        let next_token = self.unwrap_next()?;
+        match next_token.token {
+            Token::Comma => Ok(false),
+            Token::BracketClose => Ok(true),
+            _ => Err(next_token.expected("',' or ']'")),
+        }
+    }
+
     pub fn expect_number(&mut self, max_value: usize) -> Result<usize, CompileError> {
         let next_token = self.unwrap_next()?;
         if let Token::Number(n) = next_token.token {
-- 
2.43.0


From 702b34d7aa4a25c76556aac8ff704fa65a9eaf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:58 +0000
Subject: [PATCH 42/51] fix: errors met while looking ahead are not dropped

---
 src/compiler/lexer/tokenizer.rs | 17 +++++++++--------
 src/compiler/mod.rs             |  4 ++--
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 896858b..ab4f786 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -18,7 +18,7 @@ pub(crate) struct Tokenizer<'x> {
     pub compiler: &'x Compiler,
     pub iter: Peekable<Iter<'x, u8>>,
     pub buf: Vec<u8>,
-    pub next_token: Vec<TokenInfo>,
+    pub next_token: Vec<Result<TokenInfo, CompileError>>,
 
     pub pos: usize,
     pub line_num: usize,
@@ -146,7 +146,7 @@ impl<'x> Tokenizer<'x> {
             line_pos: self.pos - self.line_start,
         };
         if let Some(token) = self.get_current_token() {
-            self.next_token.push(next_token);
+            self.next_token.push(Ok(next_token));
             token
         } else {
             next_token
@@ -326,12 +326,13 @@ impl<'x> Tokenizer<'x> {
 
     pub fn peek(&mut self) -> Option<Result<&TokenInfo, CompileError>> {
         if self.next_token.is_empty() {
-            match self.next()? {
-                Ok(next_token) => self.next_token.push(next_token),
-                Err(err) => return Some(Err(err)),
-            }
+            // Errors are kept as well, they are reported once the token is consumed
+            let next_token = self.next()?;
+            self.next_token.push(next_token);
         }
-        self.next_token.last().map(Ok)
+        self.next_token
+            .last()
+            .map(|token| token.as_ref().map_err(|err| err.clone()))
     }
 }
 
@@ -340,7 +341,7 @@ impl Iterator for Tokenizer<'_> {
 
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(prev_token) = self.next_token.pop() {
-            return Some(Ok(prev_token));
+            return Some(prev_token);
         }
 
         'outer: while let Some((ch, last_ch)) = self.next_byte() {
diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index 0aa20f4..3af23ef 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -17,14 +17,14 @@ use std::{borrow::Cow, fmt::Display, sync::Arc};
 pub mod grammar;
 pub mod lexer;
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct CompileError {
     line_num: usize,
     line_pos: usize,
     error_type: ErrorType,
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub enum ErrorType {
     InvalidCharacter(u8),
     InvalidNumber(String),
-- 
2.43.0


From c4cc2800505a79d427be6161bc0c16edb187993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:06 +0000
Subject: [PATCH 43/51] fix: a list cannot stand for a single constant string
 unless it has one item

---
 src/compiler/lexer/tokenizer.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index ab4f786..bc199be 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -276,18 +276,14 @@ impl<'x> Tokenizer<'x> {
         match next_token.token {
             Token::StringConstant(s) => Ok(s.into_string()),
             Token::BracketOpen => {
-                let mut string = None;
-                loop {
-                    let token_info = self.unwrap_next()?;
-                    match token_info.token {
-                        Token::StringConstant(string_) => {
-                            string = string_.into();
-                        }
-                        Token::BracketClose if string.is_some() => break,
-                        _ => return Err(token_info.expected("constant string")),
+                let token_info = self.unwrap_next()?;
+                match token_info.token {
+                    Token::StringConstant(string) => {
+                        self.expect_token(Token::BracketClose)?;
+                        Ok(string.into_string())
                     }
+                    _ => Err(token_info.expected("constant string")),
                 }
-                Ok(string.unwrap().into_string())
             }
             _ => Err(next_token.expected("constant string")),
         }
-- 
2.43.0


From 3f192ec11883d7b027088675ef1ac971dee38d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:26 +0000
Subject: [PATCH 44/51] fix: lists of strings in the arguments of unknown tests
 guarded by ihave

---
 src/compiler/grammar/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/mod.rs b/src/compiler/grammar/mod.rs
index 80f915a..fa41ca3 100644
--- a/src/compiler/grammar/mod.rs
+++ b/src/compiler/grammar/mod.rs
@@ -234,10 +234,10 @@ impl CompilerState<'_> {
         let mut d_count = 0;
         while let Some(token_info) = self.tokens.peek() {
             match token_info?.token {
-                Token::ParenthesisOpen => {
+                Token::ParenthesisOpen | Token::BracketOpen => {
                     d_count += 1;
                 }
-                Token::ParenthesisClose => {
+                Token::ParenthesisClose | Token::BracketClose => {
                     if d_count == 0 {
                         break;
                     } else {
-- 
2.43.0


From 5a257e8e9f6a79687c36f43b615c8f3a40ac8973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:34 +0000
Subject: [PATCH 45/51] fix: the limit on nested part loops holds when other
 blocks are in between

---
 src/compiler/grammar/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index b6923f0..60d1c5a 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -236,7 +236,7 @@ impl Compiler {
                                 .iter()
                                 .filter(|b| matches!(&b.btype, Word::ForEveryPart))
                                 .count()
-                                == self.max_nested_foreverypart
+                                >= self.max_nested_foreverypart
                             {
                                 return Err(
                                     token_info.custom(ErrorType::TooManyNestedForEveryParts)
-- 
2.43.0


From 8a404ace78e53d3970cba32c5112dbf756625368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:32 +0000
Subject: [PATCH 46/51] fix: reject expressions with missing operands or
 operators

---
 src/compiler/grammar/expr/parser.rs | 49 +++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/compiler/grammar/expr/parser.rs b/src/compiler/grammar/expr/parser.rs
index fb0d025..53867d2 100644
--- a/src/compiler/grammar/expr/parser.rs
+++ b/src/compiler/grammar/expr/parser.rs
@@ -16,6 +16,15 @@ where
     arg_count: Vec<i32>,
 }
 
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+enum Expect {
+    Start,
+    Operand,
+    First,
+    Arguments,
+    Operator,
+}
+
 pub(crate) const ID_ARRAY_ACCESS: u32 = u32::MAX;
 pub(crate) const ID_ARRAY_BUILD: u32 = u32::MAX - 1;
 pub(crate) const ID_EXTERNAL: u32 = u32::MAX - 2;
@@ -35,9 +44,11 @@ where
 
     pub fn parse(mut self) -> Result<Self, String> {
         let mut last_is_var_or_fnc = false;
+        let mut expect = Expect::Start;
 
         while let Some(token) = self.tokenizer.next()? {
             let mut is_var_or_fnc = false;
+            expect = self.check_token(&token, expect)?;
             match token {
                 Token::Variable(v) => {
                     self.inc_arg_count();
@@ -194,11 +205,25 @@ where
                             _ => break,
                         }
                     }
+                    if !matches!(
+                        self.operator_stack.as_slice(),
+                        [
+                            ..,
+                            (Token::Function { .. }, _),
+                            (Token::OpenParen | Token::OpenBracket, _)
+                        ]
+                    ) {
+                        return Err("Unexpected ','".to_string());
+                    }
                 }
             }
             last_is_var_or_fnc = is_var_or_fnc;
         }
 
+        if matches!(expect, Expect::Operand | Expect::Arguments) {
+            return Err("Unexpected end of expression".to_string());
+        }
+
         while let Some((token, jmp_pos)) = self.operator_stack.pop() {
             match token {
                 Token::BinaryOperator(bop) => {
@@ -213,6 +238,30 @@ where
         Ok(self)
     }
 
+    /// Verifies that a token is allowed at its position and returns what may follow it.
+    fn check_token(&self, token: &Token, expect: Expect) -> Result<Expect, String> {
+        let is_operand = matches!(expect, Expect::Start | Expect::Operand | Expect::First);
+        match token {
+            Token::Variable(_) | Token::Number(_) | Token::String(_) if is_operand => {
+                Ok(Expect::Operator)
+            }
+            Token::Function { .. } if is_operand => Ok(Expect::Arguments),
+            Token::UnaryOperator(_) if is_operand => Ok(Expect::Operand),
+            Token::OpenParen if is_operand => Ok(Expect::Operand),
+            Token::OpenParen if expect == Expect::Arguments => Ok(Expect::First),
+            Token::OpenBracket if is_operand => Ok(Expect::First),
+            Token::OpenBracket if expect == Expect::Operator => Ok(Expect::Operand),
+            Token::BinaryOperator(_) if expect == Expect::Operator => Ok(Expect::Operand),
+            Token::Comma if expect == Expect::Operator => Ok(Expect::Operand),
+            Token::CloseParen | Token::CloseBracket
+                if matches!(expect, Expect::Operator | Expect::First) =>
+            {
+                Ok(Expect::Operator)
+            }
+            _ => Err(format!("Unexpected token {token:?}")),
+        }
+    }
+
     fn inc_arg_count(&mut self) {
         if let Some(x) = self.arg_count.last_mut() {
             *x = x.saturating_add(1);
-- 
2.43.0


From cb2f9671a997b74f2403627fe2aba075de3761c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:15 +0000
Subject: [PATCH 47/51] fix: vacation :days too large for a period in seconds
 does not overflow

---
 src/runtime/actions/action_vacation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index 166af1d..6d988a6 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -147,7 +147,7 @@ impl TestVacation {
                         format!("_v{}{}", from, ctx.eval_value(&self.reason).to_string())
                     },
                     expiry: match &self.period {
-                        Period::Days(days) => days * 86400,
+                        Period::Days(days) => days.saturating_mul(86400),
                         Period::Seconds(seconds) => *seconds,
                         Period::Default => ctx.runtime.default_vacation_expiry,
                     },
-- 
2.43.0


From 46efc5664dd36f6acd621936c100d1afb880f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:10 +0000
Subject: [PATCH 48/51] fix: header variables read header fields added or
 renamed by the script

---
 src/runtime/eval.rs | 79 +++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 38 deletions(-)

diff --git a/src/runtime/eval.rs b/src/runtime/eval.rs
index 43da865..3ef440e 100644
--- a/src/runtime/eval.rs
+++ b/src/runtime/eval.rs
@@ -4,7 +4,7 @@
  * SPDX-License-Identifier: AGPL-3.0-only OR LicenseRef-SEL
  */
 
-use std::cmp::Ordering;
+use std::{borrow::Cow, cmp::Ordering};
 
 use mail_parser::{
     decoders::html::{html_to_text, text_to_html},
@@ -157,21 +157,16 @@ impl<'x> Context<'x> {
             for h in &part.headers {
                 match &header.part {
                     HeaderPart::Raw => {
-                        if let Some(var) = raw
-                            .get(h.offset_field as usize..h.offset_end as usize)
-                            .map(sanitize_raw_header)
-                        {
-                            result.push(Variable::from(var));
-                        }
+                        let mut field = raw_header_name(h, raw).as_bytes().to_vec();
+                        field.push(b':');
+                        field.extend_from_slice(&raw_header_value(h, raw));
+                        result.push(Variable::from(sanitize_raw_header(&field)));
                     }
                     HeaderPart::Text => {
                         if let HeaderValue::Text(text) = &h.value {
                             result.push(Variable::from(format!("{}: {}", h.name.as_str(), text)));
-                        } else if let HeaderValue::Text(text) = MessageStream::new(
-                            raw.get(h.offset_start as usize..h.offset_end as usize)
-                                .unwrap_or(b""),
-                        )
-                        .parse_unstructured()
+                        } else if let HeaderValue::Text(text) =
+                            MessageStream::new(&raw_header_value(h, raw)).parse_unstructured()
                         {
                             result.push(Variable::from(format!("{}: {}", h.name.as_str(), text)));
                         }
@@ -284,13 +279,9 @@ impl HeaderVariable {
                     }
                 }
                 HeaderValue::Text(_) => {
-                    let addr = raw
-                        .get(header.offset_start as usize..header.offset_end as usize)
-                        .and_then(|bytes| match MessageStream::new(bytes).parse_address() {
-                            HeaderValue::Address(addr) => addr.into(),
-                            _ => None,
-                        });
-                    if let Some(addr) = addr {
+                    let bytes = raw_header_value(header, raw);
+                    if let HeaderValue::Address(addr) = MessageStream::new(&bytes).parse_address()
+                    {
                         let mut list = addr.iter();
                         match self.index_part.cmp(&0) {
                             Ordering::Greater => list
@@ -323,11 +314,10 @@ impl HeaderVariable {
                 if let HeaderValue::DateTime(dt) = &header.value {
                     Variable::from(dt.to_timestamp()).into()
                 } else {
-                    raw.get(header.offset_start as usize..header.offset_end as usize)
-                        .and_then(|bytes| match MessageStream::new(bytes).parse_date() {
-                            HeaderValue::DateTime(dt) => Variable::from(dt.to_timestamp()).into(),
-                            _ => None,
-                        })
+                    match MessageStream::new(&raw_header_value(header, raw)).parse_date() {
+                        HeaderValue::DateTime(dt) => Variable::from(dt.to_timestamp()).into(),
+                        _ => None,
+                    }
                 }
             }
             HeaderPart::Id => match &header.name {
@@ -342,12 +332,7 @@ impl HeaderVariable {
                     _ => None,
                 },
                 HeaderName::Other(_) => {
-                    match MessageStream::new(
-                        raw.get(header.offset_start as usize..header.offset_end as usize)
-                            .unwrap_or(b""),
-                    )
-                    .parse_id()
-                    {
+                    match MessageStream::new(&raw_header_value(header, raw)).parse_id() {
                         HeaderValue::Text(id) => Variable::from(id).into(),
                         HeaderValue::TextList(ids) => {
                             for id in ids {
@@ -361,14 +346,10 @@ impl HeaderVariable {
                 _ => None,
             },
 
-            HeaderPart::Raw => raw
-                .get(header.offset_start as usize..header.offset_end as usize)
-                .map(sanitize_raw_header)
-                .map(Variable::from),
-            HeaderPart::RawName => raw
-                .get(header.offset_field as usize..header.offset_start as usize - 1)
-                .map(|bytes| std::str::from_utf8(bytes).unwrap_or_default())
-                .map(Variable::from),
+            HeaderPart::Raw => {
+                Variable::from(sanitize_raw_header(&raw_header_value(header, raw))).into()
+            }
+            HeaderPart::RawName => Variable::from(raw_header_name(header, raw)).into(),
             HeaderPart::Exists => Variable::from(true).into(),
             _ => match (&header.value, &self.part) {
                 (HeaderValue::ContentType(ct), HeaderPart::ContentType(part)) => match part {
@@ -469,6 +450,28 @@ impl IntoString for Vec<u8> {
     }
 }
 
+// Headers added or renamed by the script do not have (all of) their contents in the raw message
+fn raw_header_name<'x>(header: &'x Header<'x>, raw: &'x [u8]) -> &'x str {
+    if header.offset_field < header.offset_start {
+        raw.get(header.offset_field as usize..header.offset_start as usize - 1)
+            .and_then(|bytes| std::str::from_utf8(bytes).ok())
+            .unwrap_or_default()
+    } else {
+        header.name.as_str()
+    }
+}
+
+fn raw_header_value<'x>(header: &'x Header<'x>, raw: &'x [u8]) -> Cow<'x, [u8]> {
+    if header.offset_end != 0 {
+        raw.get(header.offset_start as usize..header.offset_end as usize)
+            .unwrap_or_default()
+            .into()
+    } else {
+        let text = header.value.as_text().unwrap_or_default();
+        format!(" {text}\r\n").into_bytes().into()
+    }
+}
+
 fn sanitize_raw_header(bytes: &[u8]) -> String {
     let mut result = Vec::with_capacity(bytes.len());
     let mut last_is_space = false;
-- 
2.43.0


From 3eac7e8b3af11b1c22f4506698d06d3fe60b2004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:22 +0000
Subject: [PATCH 49/51] fix: part.raw of a replaced part does not return
 unrelated message text

---
 src/runtime/eval.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/runtime/eval.rs b/src/runtime/eval.rs
index 3ef440e..27330fc 100644
--- a/src/runtime/eval.rs
+++ b/src/runtime/eval.rs
@@ -82,7 +82,12 @@ impl<'x> Context<'x> {
                     _ => None,
                 },
                 MessagePart::Raw => {
-                    let part = self.message.parts.get(self.part as usize)?;
+                    let part = self
+                        .message
+                        .parts
+                        .get(self.part as usize)
+                        // Parts written by the script are not in the raw message
+                        .filter(|part| part.offset_body != 0)?;
                     self.message
                         .raw_message()
                         .get(part.raw_body_offset() as usize..part.raw_end_offset() as usize)
-- 
2.43.0


From 570dc8769b6e652c77b2d41dcb446cdc8ccd9c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:52 +0000
Subject: [PATCH 50/51] fix: leave an encoded character sequence verbatim when
 its last number is invalid

---
 src/compiler/lexer/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index a54edd7..513ec4c 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -190,7 +190,7 @@ impl CompilerState<'_> {
                                 is_var_error = true;
                             }
                         }
-                        if ch == b'}' {
+                        if ch == b'}' && !is_var_error {
                             if decode_buf.len() != initial_buf_size {
                                 state = State::None;
                             } else {
-- 
2.43.0


From f954273b09a4dd54ea7db8fc735e1ba5ffe13913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:10 +0000
Subject: [PATCH 51/51] fix: convert keeps the header fields of the message and
 matches the media type it is given

Converting a message whose first part is the text dropped all of its
header fields; a source type of text/plain converted every text part
while text converted plain parts only; and the new Content-Type field
was not found under its name.
---
 src/runtime/actions/action_convert.rs | 53 ++++++++++++++++-----------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index 432dc58..766e87a 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -14,9 +14,8 @@ use crate::{
 };
 
 #[derive(Clone, Copy)]
-enum Conversion {
-    TextToHtml,
-    TextPlainToHtml,
+enum Conversion<'x> {
+    TextToHtml(&'x str),
     HtmlToText,
 }
 
@@ -32,15 +31,16 @@ impl Convert {
             return TestResult::Bool(false ^ self.is_not);
         }
 
-        let conversion = if (from_media_type.eq_ignore_ascii_case("text")
-            || from_media_type.starts_with("text/"))
-            && to_media_type.eq_ignore_ascii_case("text/html")
+        let text_subtype = match from_media_type.split_once('/') {
+            Some((type_, subtype)) if type_.eq_ignore_ascii_case("text") => Some(subtype),
+            None if from_media_type.eq_ignore_ascii_case("text") => Some("plain"),
+            _ => None,
+        };
+
+        let conversion = if let (Some(subtype), true) =
+            (text_subtype, to_media_type.eq_ignore_ascii_case("text/html"))
         {
-            if from_media_type.eq_ignore_ascii_case("text") {
-                Conversion::TextPlainToHtml
-            } else {
-                Conversion::TextToHtml
-            }
+            Conversion::TextToHtml(subtype)
         } else if from_media_type.eq_ignore_ascii_case("text/html")
             && to_media_type.eq_ignore_ascii_case("text/plain")
         {
@@ -49,21 +49,18 @@ impl Convert {
             return TestResult::Bool(false ^ self.is_not);
         };
         let mut did_convert = false;
-        for part in ctx.message.parts.iter_mut() {
+        for (part_id, part) in ctx.message.parts.iter_mut().enumerate() {
             let (new_body, ct) = match (&part.body, conversion) {
                 (PartType::Html(html), Conversion::HtmlToText) => (
                     PartType::Text(html_to_text(html.as_ref()).into()),
                     "text/plain; charset=utf8",
                 ),
-                (PartType::Text(text), Conversion::TextToHtml) => (
-                    PartType::Html(text_to_html(text.as_ref()).into()),
-                    "text/html; charset=utf8",
-                ),
-                (PartType::Text(text), Conversion::TextPlainToHtml)
+                (PartType::Text(text), Conversion::TextToHtml(subtype))
                     if part
                         .content_type()
-                        .and_then(|ct| ct.c_subtype.as_ref())
-                        .is_some_and(|st| st.eq_ignore_ascii_case("plain")) =>
+                        .and_then(|ct| ct.c_subtype.as_deref())
+                        .unwrap_or("plain")
+                        .eq_ignore_ascii_case(subtype) =>
                 {
                     (
                         PartType::Html(text_to_html(text.as_ref()).into()),
@@ -74,13 +71,25 @@ impl Convert {
                     continue;
                 }
             };
-            part.headers = vec![Header {
-                name: HeaderName::Other("Content-Type".into()),
+            if part_id == 0 {
+                // The first part carries the header fields of the message
+                part.headers.retain(|header| {
+                    !header
+                        .name
+                        .as_str()
+                        .get(..8)
+                        .is_some_and(|name| name.eq_ignore_ascii_case("content-"))
+                });
+            } else {
+                part.headers.clear();
+            }
+            part.headers.push(Header {
+                name: HeaderName::ContentType,
                 value: HeaderValue::Text(ct.to_string().into()),
                 offset_start: 0,
                 offset_end: 0,
                 offset_field: 0,
-            }];
+            });
             part.offset_body = 0;
             part.body = new_body;
             part.encoding = Encoding::QuotedPrintable; //Used as non-mime flag
-- 
2.43.0

