From 6e1c92bf559d24dfa449580212dad2e2bffa6516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 01/19] verif: add guarded probe hook (cfg louis_verif)

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1bf4009..c955fe4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -149,6 +149,11 @@ impl Translator {
     }
 }
 
+/// Verification hook: pulls a probe module into the crate so that an external harness can
+/// exercise private items. Compiled only with `--cfg louis_verif`.
+#[cfg(louis_verif)]
+include!(env!("LOUIS_VERIF_PROBE"));
+
 #[cfg(test)]
 mod tests {
     use crate::translator::TranslationStage;
-- 
2.43.0


From b8b3fa4be6622205380bee2ed1855399e40ff262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 02/19] fix: keep the precedence and full weight of a rule
 stored in the trie

A translation rule defined twice (or defined over a lower-precedence one) replaced the
earlier definition every time, because the stored translation never carried its
precedence, and the replacement lost the weight of its boundary conditions.
---
 src/translator/translation.rs |  5 +++++
 src/translator/trie.rs        | 31 ++++++++-----------------------
 2 files changed, 13 insertions(+), 23 deletions(-)

diff --git a/src/translator/translation.rs b/src/translator/translation.rs
index 150a882..4d1209e 100644
--- a/src/translator/translation.rs
+++ b/src/translator/translation.rs
@@ -287,6 +287,11 @@ impl ResolvedTranslation {
         Self { weight, ..self }
     }
 
+    /// Set the `precedence` of a translation.
+    pub fn with_precedence(self, precedence: Precedence) -> Self {
+        Self { precedence, ..self }
+    }
+
     /// Set the `output` of a translation.
     pub fn with_output(self, output: &str) -> Self {
         Self {
diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index d626d5e..2adc8ba 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -227,36 +227,21 @@ impl Trie {
             }
         }
 
-        if let Some(translation) = &current_node.translation {
+        let translation = ResolvedTranslation::new(from, to, length, stage, origin.clone())
+            .with_precedence(precedence.clone());
+
+        if let Some(existing) = &current_node.translation {
             // this node already contains a translation
-            if precedence > translation.precedence() {
-                current_node.translation = Some(ResolvedTranslation::new(
-                    from,
-                    to,
-                    from.chars().count(),
-                    stage,
-                    origin.clone(),
-                ));
+            if precedence > existing.precedence() {
+                current_node.translation = Some(translation);
             } else if cfg!(feature = "backwards_compatibility") {
                 // first rule wins, so nothing to insert
             } else {
                 // last rule wins
-                current_node.translation = Some(ResolvedTranslation::new(
-                    from,
-                    to,
-                    length,
-                    stage,
-                    origin.clone(),
-                ));
+                current_node.translation = Some(translation);
             }
         } else {
-            current_node.translation = Some(ResolvedTranslation::new(
-                from,
-                to,
-                length,
-                stage,
-                origin.clone(),
-            ));
+            current_node.translation = Some(translation);
         }
     }
 
-- 
2.43.0


From d2bc10b7c256ca4ebe2f373631a2cfae2f4728c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 03/19] fix: make the choice between equally long trie matches
 deterministic

---
 src/translator/trie.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index 2adc8ba..a5cb563 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -1,6 +1,6 @@
 //! Store and find simple translation rules using a prefix tree ([Trie](https://en.wikipedia.org/wiki/Trie))
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::{
     parser::{AnchoredRule, CharacterClass, CharacterClasses, Direction, Precedence},
@@ -11,7 +11,7 @@ use super::ResolvedTranslation;
 
 /// The union of one or more character classes, pre-resolved to their actual member
 /// characters.
-#[derive(Debug, PartialEq, Eq, Hash, Clone, Default)]
+#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Default)]
 pub struct ResolvedClasses {
     /// The characters contained in this character class
     chars: Vec<char>,
@@ -58,7 +58,7 @@ pub enum Transition {
 
 /// The resolved, trie-internal counterpart of [`Transition`] plus the transitions that only ever
 /// arise while inserting a plain character sequence.
-#[derive(Debug, PartialEq, Eq, Hash, Clone)]
+#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
 enum ResolvedTransition {
     Character(char),
     Start(ResolvedClasses),
@@ -78,7 +78,9 @@ pub enum ClassConstraint {
 #[derive(Default, Debug, Clone)]
 struct TrieNode {
     translation: Option<ResolvedTranslation>,
-    transitions: HashMap<ResolvedTransition, TrieNode>,
+    /// Ordered, so that of several equally long matches always the same one is found last,
+    /// and translating the same input with the same table always gives the same result.
+    transitions: BTreeMap<ResolvedTransition, TrieNode>,
 }
 
 impl TrieNode {
-- 
2.43.0


From 88da48a1c155a9cb387fbeb5d0889b58399a0054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 04/19] fix: check the character before a rule against the
 input, not the previous rule's text

---
 src/translator/table/primary.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 5b027b7..dc189fd 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1620,8 +1620,7 @@ impl PrimaryTable {
                 let translation = nocross.clone();
                 let translation = uppercase_if_needed(translation);
                 // move the iterator forward by the number of characters in the translation
-                chars.nth(nocross.length() - 1);
-                prev = translation.input().chars().last();
+                prev = chars.nth(nocross.length() - 1);
                 char_pos += nocross.length();
                 translations.push(translation);
                 delayed_translations = self.update_offsets(delayed_translations, nocross.length());
@@ -1633,8 +1632,7 @@ impl PrimaryTable {
                 } else {
                     seen.clear();
                     // move the iterator forward by the number of characters in the translation
-                    chars.nth(t.length() - 1);
-                    prev = t.input().chars().last();
+                    prev = chars.nth(t.length() - 1);
                     char_pos += t.length();
                 }
                 // there is a matching translation rule
-- 
2.43.0


From ebec3ad76215a1a457b38e3a934ca5d6e74cd053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 05/19] fix: order simultaneous emphasis indicators by a proper
 ordering

Open/close events at one position were sorted with a comparator that treats word and
letter indicators as equal to everything, which is not a total order.
---
 src/translator/indication/emphasis.rs | 49 ++++++++++++++++-----------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/translator/indication/emphasis.rs b/src/translator/indication/emphasis.rs
index 8d853d9..f994c6f 100644
--- a/src/translator/indication/emphasis.rs
+++ b/src/translator/indication/emphasis.rs
@@ -464,29 +464,38 @@ impl Indicator {
             }
         }
 
-        // Stable-sort so that same-position, same-kind events keep their relative
-        // order unless the rules require a reordering.
-        events.sort_by(|a, b| {
-            use std::cmp::Ordering;
-            let pos_ord = a.0.cmp(&b.0);
-            if pos_ord != Ordering::Equal {
-                return pos_ord;
-            }
-            match (&a.2, &b.2) {
-                // Opens at same position: later run_end first, then higher class_idx first.
-                (EmitKind::Open { run_end: re_a }, EmitKind::Open { run_end: re_b }) => {
-                    re_b.cmp(re_a).then(b.3.cmp(&a.3))
+        // Stable-sort by position, so that same-position events keep their relative order,
+        // then bring the opens (and likewise the closes) of each position into stack order
+        // among themselves. This cannot be a single `sort_by`: an event that is neither an
+        // open nor a close keeps its place, so comparing it equal to both an earlier and a
+        // later open would not be a total order.
+        events.sort_by_key(|(pos, _, _, _)| *pos);
+        for i in 0..events.len() {
+            let mut current = i;
+            for k in (0..i).rev() {
+                if events[k].0 != events[current].0 {
+                    break;
                 }
-                // Closes at same position: later open (higher emit_start) closes first
-                // (= inverse of open order).  Tiebreaker: lower class_idx first
-                // (first-defined closes first, matching emphclass definition order).
-                (EmitKind::Close { emit_start: es_a }, EmitKind::Close { emit_start: es_b }) => {
-                    es_b.cmp(es_a).then(a.3.cmp(&b.3))
+                let reorder = match (&events[current].2, &events[k].2) {
+                    // Opens at same position: later run_end first, then higher class_idx first.
+                    (EmitKind::Open { run_end: re }, EmitKind::Open { run_end: re_k }) => {
+                        re > re_k || (re == re_k && events[current].3 > events[k].3)
+                    }
+                    // Closes at same position: later open (higher emit_start) closes first
+                    // (= inverse of open order).  Tiebreaker: lower class_idx first
+                    // (first-defined closes first, matching emphclass definition order).
+                    (EmitKind::Close { emit_start: es }, EmitKind::Close { emit_start: es_k }) => {
+                        es > es_k || (es == es_k && events[current].3 < events[k].3)
+                    }
+                    // All other combinations: preserve original order.
+                    _ => false,
+                };
+                if reorder {
+                    events.swap(current, k);
+                    current = k;
                 }
-                // All other combinations: preserve original order.
-                _ => Ordering::Equal,
             }
-        });
+        }
 
         events
             .into_iter()
-- 
2.43.0


From 75246315d84697ce7c2345cb113a5077866e5a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 06/19] fix: do not loop forever on compbrl triggers that start
 with whitespace

---
 src/translator/table/primary.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index dc189fd..861070e 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -75,8 +75,10 @@ impl CompbrlScanner {
                 if !spans.contains(&new_span) {
                     spans.push(new_span);
                 }
-                // Skip to end of word to avoid adding duplicate spans for the same word.
-                pos = word_end;
+                // Skip to end of word to avoid adding duplicate spans for the same word. A
+                // trigger that starts with whitespace matches in front of a word, where the
+                // "word" is over already.
+                pos = word_end.max(pos + 1);
             } else {
                 pos += 1;
             }
-- 
2.43.0


From dd028497740c3183d2d5ca8ea241959be1fa2b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 07/19] fix: the class names math and litdigit mean the
 predefined classes

---
 src/parser/character_class.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/character_class.rs b/src/parser/character_class.rs
index a72da42..4623ff7 100644
--- a/src/parser/character_class.rs
+++ b/src/parser/character_class.rs
@@ -39,11 +39,13 @@ impl From<&str> for CharacterClass {
         match value {
             "space" => CharacterClass::Space,
             "digit" => CharacterClass::Digit,
+            "litdigit" => CharacterClass::Litdigit,
             "letter" => CharacterClass::Letter,
             "uppercase" => CharacterClass::Uppercase,
             "lowercase" => CharacterClass::Lowercase,
             "punctuation" => CharacterClass::Punctuation,
             "sign" => CharacterClass::Sign,
+            "math" => CharacterClass::Math,
             "seqdelimiter" => CharacterClass::Seqdelimiter,
             "seqbeforechars" => CharacterClass::Seqbeforechars,
             "seqafterchars" => CharacterClass::Seqafterchars,
-- 
2.43.0


From a33b3b101f98634303ba0646f9193b2f53e554e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 08/19] fix: nocross rules obey the restrictions of numbers and
 computer braille

---
 src/translator/table/primary.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 861070e..29d9cba 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1517,6 +1517,12 @@ impl PrimaryTable {
             let nocross_candidate = self
                 .nocross_candidates(chars.as_str(), prev, char_pos, &constraints)
                 .into_iter()
+                // nocross rules are no exception to the restrictions inside of a numeric run
+                // and in computer braille, see below
+                .filter(|t| {
+                    !constraints.use_comp6_at(char_pos)
+                        && !(constraints.dont_contract_at(char_pos) && t.length() > 1)
+                })
                 .max_by_key(|t| t.weight());
 
             // given an input query the trie for matching translations. Then split off the
-- 
2.43.0


From 270c54913940a40b0b7738e05a6da547789c1208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 09/19] fix: forget the zero-length rules applied at a position
 whenever the position changes

---
 src/translator/table/multipass.rs | 1 +
 src/translator/table/primary.rs   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/translator/table/multipass.rs b/src/translator/table/multipass.rs
index 03353c0..d0c060f 100644
--- a/src/translator/table/multipass.rs
+++ b/src/translator/table/multipass.rs
@@ -160,6 +160,7 @@ impl MultipassTable {
                     }
                 }
             } else if let Some(next_char) = chars.next() {
+                seen.clear();
                 prev = Some(next_char);
                 // no translation rule found, just pass the character through
                 let translation = ResolvedTranslation::new(
diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 29d9cba..2135c22 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1627,6 +1627,7 @@ impl PrimaryTable {
             {
                 let translation = nocross.clone();
                 let translation = uppercase_if_needed(translation);
+                seen.clear();
                 // move the iterator forward by the number of characters in the translation
                 prev = chars.nth(nocross.length() - 1);
                 char_pos += nocross.length();
@@ -1656,6 +1657,7 @@ impl PrimaryTable {
                     }
                 }
             } else if let Some(next_char) = chars.next() {
+                seen.clear();
                 prev = Some(next_char);
                 char_pos += 1;
                 // no translation rule found
-- 
2.43.0


From 295f9bed830b0a81de168ab1a5d75c87d55db0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 10/19] fix: a ranged quantifier repeats at most as often as
 its upper bound

---
 src/translator/regexp.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 57ac88d..f33de42 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -215,13 +215,16 @@ impl Regexp {
                 for _ in 0..*min {
                     regexp.emit(instructions, character_classes);
                 }
-                let pos = instructions.len();
-                instructions.push(Instruction::Split(pos + 1, 0));
+                // each of the further repetitions is optional on its own
+                let mut splits = Vec::new();
                 for _ in *min..*max {
+                    splits.push(instructions.len());
+                    instructions.push(Instruction::Split(0, 0));
                     regexp.emit(instructions, character_classes);
                 }
-                instructions.push(Instruction::Jump(pos));
-                instructions[pos] = Instruction::Split(pos + 1, instructions.len());
+                for pos in splits {
+                    instructions[pos] = Instruction::Split(pos + 1, instructions.len());
+                }
             }
             Regexp::Capture(regexp) => {
                 instructions.push(Instruction::CaptureStart);
-- 
2.43.0


From d2af9e417ba3ccf9d4b7cc4f0ceed759c322efbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 11/19] fix: a swap class names its own characters in the
 braille passes

---
 src/translator/table.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/translator/table.rs b/src/translator/table.rs
index 34b7580..978eb1a 100644
--- a/src/translator/table.rs
+++ b/src/translator/table.rs
@@ -225,7 +225,7 @@ impl TableContext {
                     for c in chars.chars() {
                         character_classes.insert(class.clone(), c);
                         dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
+                            class.clone(),
                             c,
                             &character_definitions,
                         );
@@ -243,7 +243,7 @@ impl TableContext {
                     for c in chars.chars() {
                         character_classes.insert(class.clone(), c);
                         dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
+                            class.clone(),
                             c,
                             &character_definitions,
                         );
@@ -263,11 +263,7 @@ impl TableContext {
                     let class = CharacterClass::from(name.as_str());
                     for c in dots.to_string().chars() {
                         character_classes.insert(class.clone(), c);
-                        dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
-                            c,
-                            &character_definitions,
-                        );
+                        dots_classes.insert(class.clone(), c);
                     }
                     let replacements: Vec<String> =
                         replacement.iter().map(|b| b.to_string()).collect();
-- 
2.43.0


From 7be75c4dabae4dbcace8ba391d2553503f21496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 12/19] fix: parse and apply the increment and decrement
 actions

---
 src/parser/multipass/action.rs    | 10 ++++++++--
 src/translator/context_pattern.rs |  9 +++++----
 src/translator/effect.rs          | 16 +++++++++++++++-
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/parser/multipass/action.rs b/src/parser/multipass/action.rs
index 5df2528..8b3d6f5 100644
--- a/src/parser/multipass/action.rs
+++ b/src/parser/multipass/action.rs
@@ -249,8 +249,14 @@ impl<'a> Parser<'a> {
                     value: self.ascii_number()?,
                 })
             }
-            Some('+') => Ok(ActionInstruction::Increment { variable }),
-            Some('-') => Ok(ActionInstruction::Decrement { variable }),
+            Some('+') => {
+                self.consume('+')?;
+                Ok(ActionInstruction::Increment { variable })
+            }
+            Some('-') => {
+                self.consume('-')?;
+                Ok(ActionInstruction::Decrement { variable })
+            }
             c => Err(ParseError::InvalidOperator { found: c.copied() }),
         }
     }
diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index c34604f..daa30a3 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -187,10 +187,11 @@ impl Effects {
     }
 
     fn from_instruction(value: ActionInstruction) -> Option<Effect> {
-        if let ActionInstruction::Assignment { variable, value } = value {
-            Some(Effect::new(variable, value))
-        } else {
-            None
+        match value {
+            ActionInstruction::Assignment { variable, value } => Some(Effect::new(variable, value)),
+            ActionInstruction::Increment { variable } => Some(Effect::increment(variable)),
+            ActionInstruction::Decrement { variable } => Some(Effect::decrement(variable)),
+            _ => None,
         }
     }
 }
diff --git a/src/translator/effect.rs b/src/translator/effect.rs
index 3641d07..b1868a4 100644
--- a/src/translator/effect.rs
+++ b/src/translator/effect.rs
@@ -20,6 +20,20 @@ impl Effect {
             kind: EffectKind::Set(value),
         }
     }
+
+    pub fn increment(slot: u8) -> Self {
+        Effect {
+            slot,
+            kind: EffectKind::Increment,
+        }
+    }
+
+    pub fn decrement(slot: u8) -> Self {
+        Effect {
+            slot,
+            kind: EffectKind::Decrement,
+        }
+    }
 }
 
 pub struct Environment(HashMap<u8, u8>);
@@ -37,7 +51,7 @@ impl Environment {
         let slot = effect.slot;
         match effect.kind {
             EffectKind::Increment => {
-                self.0.entry(slot).and_modify(|v| *v += 1).or_insert(1);
+                self.0.entry(slot).and_modify(|v| *v = v.saturating_add(1)).or_insert(1);
             }
             EffectKind::Decrement => {
                 self.0
-- 
2.43.0


From 8a649822a6aa2e75f6b4fdbe587b0b2d10755ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 13/19] fix: support all comparison operators in variable tests
 instead of panicking

---
 src/translator/context_pattern.rs | 14 ++++++++++----
 src/translator/regexp.rs          | 26 ++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index daa30a3..b1cbb65 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -54,10 +54,16 @@ impl Regexp {
             TestInstruction::Lookback { .. } => Regexp::Empty,
             TestInstruction::Variable { var, op, operand } => match op {
                 Operator::Eq => Regexp::VariableEqual(*var, *operand),
-                // FIXME: operands other than equal do not seem to exist in the wild (at least not
-                // in the tables that are shipped with liblouis), so maybe that feature should be
-                // removed
-                _ => todo!(),
+                Operator::Lt => match operand.checked_sub(1) {
+                    Some(max) => Regexp::VariableBetween(*var, 0, max),
+                    None => Regexp::Never,
+                },
+                Operator::LtEq => Regexp::VariableBetween(*var, 0, *operand),
+                Operator::Gt => match operand.checked_add(1) {
+                    Some(min) => Regexp::VariableBetween(*var, min, u8::MAX),
+                    None => Regexp::Never,
+                },
+                Operator::GtEq => Regexp::VariableBetween(*var, *operand, u8::MAX),
             },
             TestInstruction::String { s } => Regexp::String(s.to_string()),
             TestInstruction::Dots { dots } => Regexp::String(dots.to_string()),
diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index f33de42..460eb70 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -59,6 +59,10 @@ pub enum Regexp {
     VariableEqual(VariableIndex, u8),
     /// Check whether variable at index is not equal to given value
     NotVariableEqual(VariableIndex, u8),
+    /// Check whether variable at index lies between the given values (both included)
+    VariableBetween(VariableIndex, u8, u8),
+    /// Check whether variable at index does not lie between the given values (both included)
+    NotVariableBetween(VariableIndex, u8, u8),
     Group(Box<Regexp>),
     /// To support empty captures, we need an empty AST
     Empty,
@@ -122,6 +126,8 @@ impl Regexp {
             Regexp::VariableEqual(slot, value) => Regexp::NotVariableEqual(slot, value),
             // unreachable: the parser rejects double negation before it reaches here
             Regexp::NotVariableEqual(_, _) => unreachable!(),
+            Regexp::VariableBetween(slot, min, max) => Regexp::NotVariableBetween(slot, min, max),
+            Regexp::NotVariableBetween(slot, min, max) => Regexp::VariableBetween(slot, min, max),
             Regexp::Group(regexp) => Regexp::Group(Box::new(regexp.negate())),
             Regexp::Empty => Regexp::Never,
             Regexp::Never => Regexp::Empty,
@@ -252,6 +258,12 @@ impl Regexp {
             Regexp::NotVariableEqual(index, value) => {
                 instructions.push(Instruction::NotVariableEqual(*index, *value))
             }
+            Regexp::VariableBetween(index, min, max) => {
+                instructions.push(Instruction::VariableBetween(*index, *min, *max))
+            }
+            Regexp::NotVariableBetween(index, min, max) => {
+                instructions.push(Instruction::NotVariableBetween(*index, *min, *max))
+            }
             Regexp::Group(regexp) => {
                 regexp.emit(instructions, character_classes);
             }
@@ -300,6 +312,10 @@ pub enum Instruction {
     VariableEqual(VariableIndex, u8),
     /// Test whether a variable is not equal to a value
     NotVariableEqual(VariableIndex, u8),
+    /// Test whether a variable lies between two values (both included)
+    VariableBetween(VariableIndex, u8, u8),
+    /// Test whether a variable does not lie between two values (both included)
+    NotVariableBetween(VariableIndex, u8, u8),
     /// Zero-width assertion: succeeds only if there is no input left
     AssertEnd,
     /// Zero-width assertion: succeeds only if there is still input left
@@ -431,6 +447,16 @@ impl CompiledRegexp {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
+            Instruction::VariableBetween(var, min, max) => {
+                if env.get(var).is_some_and(|v| (min..=max).contains(v)) {
+                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                }
+            }
+            Instruction::NotVariableBetween(var, min, max) => {
+                if env.get(var).is_some_and(|v| !(min..=max).contains(v)) {
+                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                }
+            }
             Instruction::AssertEnd => {
                 if sp == input_len {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
-- 
2.43.0


From 2de3d9664d4c767503d47a160603352e3998be28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 14/19] fix: variables are zero until a rule changes them

---
 src/translator/effect.rs | 5 +++--
 src/translator/regexp.rs | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/translator/effect.rs b/src/translator/effect.rs
index b1868a4..94f16a0 100644
--- a/src/translator/effect.rs
+++ b/src/translator/effect.rs
@@ -43,8 +43,9 @@ impl Environment {
         Environment(HashMap::new())
     }
 
-    pub fn get(&self, slot: u8) -> Option<&u8> {
-        self.0.get(&slot)
+    /// The value of the variable. All variables are zero until they are changed.
+    pub fn get(&self, slot: u8) -> u8 {
+        self.0.get(&slot).copied().unwrap_or(0)
     }
 
     pub fn apply(&mut self, effect: &Effect) {
diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 460eb70..ba56cd1 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -438,22 +438,22 @@ impl CompiledRegexp {
                 self.add_thread(list, pc + 1, (capture.0, sp), sp, input_len, at_start, env)
             }
             Instruction::VariableEqual(var, expected) => {
-                if env.get(var) == Some(&expected) {
+                if env.get(var) == expected {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
             Instruction::NotVariableEqual(var, expected) => {
-                if env.get(var).is_some_and(|&actual| actual != expected) {
+                if env.get(var) != expected {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
             Instruction::VariableBetween(var, min, max) => {
-                if env.get(var).is_some_and(|v| (min..=max).contains(v)) {
+                if (min..=max).contains(&env.get(var)) {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
             Instruction::NotVariableBetween(var, min, max) => {
-                if env.get(var).is_some_and(|v| !(min..=max).contains(v)) {
+                if !(min..=max).contains(&env.get(var)) {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
-- 
2.43.0


From 89eaad1c514548e6677c35199809afde9be38706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 15/19] fix: do not panic on nested negations in match patterns

---
 src/translator/regexp.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index ba56cd1..8ab8def 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -108,8 +108,8 @@ impl Regexp {
             // its negation can therefore never succeed.
             Regexp::Any => Regexp::Never,
             Regexp::CharacterClass(class) => Regexp::NotCharacterClass(class),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotCharacterClass(_) => unreachable!(),
+            // a double negation inside of a group or a quantifier, e.g. `!(!a)`
+            Regexp::NotCharacterClass(class) => Regexp::CharacterClass(class),
             Regexp::RepeatExactly(n, regexp) => Regexp::RepeatExactly(n, Box::new(regexp.negate())),
             Regexp::RepeatAtLeast(n, regexp) => Regexp::RepeatAtLeast(n, Box::new(regexp.negate())),
             Regexp::RepeatAtLeastAtMost(n, m, regexp) => {
@@ -118,14 +118,12 @@ impl Regexp {
             // unreachable: the parser rejects negating a capture before it reaches here
             Regexp::Capture(_) => unreachable!(),
             Regexp::String(s) => Regexp::NotString(s),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotString(_) => unreachable!(),
+            Regexp::NotString(s) => Regexp::String(s),
             // unreachable: only ever built from a match rule's `chars` operand, which is parsed
             // separately from `pre`/`post` as a plain string and never goes through `Pattern::Negate`
             Regexp::CaseInsensitiveString(_) => unreachable!(),
             Regexp::VariableEqual(slot, value) => Regexp::NotVariableEqual(slot, value),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotVariableEqual(_, _) => unreachable!(),
+            Regexp::NotVariableEqual(slot, value) => Regexp::VariableEqual(slot, value),
             Regexp::VariableBetween(slot, min, max) => Regexp::NotVariableBetween(slot, min, max),
             Regexp::NotVariableBetween(slot, min, max) => Regexp::VariableBetween(slot, min, max),
             Regexp::Group(regexp) => Regexp::Group(Box::new(regexp.negate())),
-- 
2.43.0


From e607a72852ef276fef5fa50a388e5b01f0979c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:44 +0000
Subject: [PATCH 16/19] fix: negating a negated any-character item matches any
 character again

---
 src/translator/regexp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 8ab8def..29bd118 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -105,8 +105,9 @@ impl Regexp {
             Regexp::ZeroOrMore(regexp) => Regexp::ZeroOrMore(Box::new(regexp.negate())),
             Regexp::OneOrMore(regexp) => Regexp::OneOrMore(Box::new(regexp.negate())),
             // `Any` matches every possible character, so no character fails to match it --
-            // its negation can therefore never succeed.
-            Regexp::Any => Regexp::Never,
+            // its negation can therefore never succeed. It still is about one character, so that
+            // negating it again (`!(!.)`) gives back any character.
+            Regexp::Any => Regexp::CharacterClass(HashSet::new()),
             Regexp::CharacterClass(class) => Regexp::NotCharacterClass(class),
             // a double negation inside of a group or a quantifier, e.g. `!(!a)`
             Regexp::NotCharacterClass(class) => Regexp::CharacterClass(class),
-- 
2.43.0


From ab2bf5ba593c73316c67e91892460ef0ce740417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:57 +0000
Subject: [PATCH 17/19] fix: a match pattern that starts with a hyphen keeps
 the rest of the pattern

---
 src/parser/match_rule.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/match_rule.rs b/src/parser/match_rule.rs
index 8e48c46..d6195b7 100644
--- a/src/parser/match_rule.rs
+++ b/src/parser/match_rule.rs
@@ -339,7 +339,10 @@ impl<'a> PatternParser<'a> {
     }
 
     pub fn pattern(&mut self) -> Result<Patterns, ParseError> {
-        if self.chars.next_if(|&c| c == '-').is_some() {
+        // only a lone `-` stands for the empty pattern, anywhere else it is an ordinary character
+        let mut rest = self.chars.clone();
+        if rest.next() == Some('-') && rest.next().is_none() {
+            self.chars = rest;
             return Ok(Patterns(vec![Pattern::Empty]));
         }
         if self.chars.peek().is_none() {
-- 
2.43.0


From c1a61ca7488f4bfee3b784d9aca855984cc60539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:34 +0000
Subject: [PATCH 18/19] fix: nine is dots 35 in North American Braille Computer
 Code

---
 src/parser/braille.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/braille.rs b/src/parser/braille.rs
index 544b971..6c803df 100644
--- a/src/parser/braille.rs
+++ b/src/parser/braille.rs
@@ -220,7 +220,7 @@ pub fn fallback(ch: char) -> char {
             '8',
             BrailleChar(BrailleDot::Dot2 | BrailleDot::Dot3 | BrailleDot::Dot6),
         ),
-        ('9', BrailleChar(BrailleDot::Dot2 | BrailleDot::Dot5)),
+        ('9', BrailleChar(BrailleDot::Dot3 | BrailleDot::Dot5)),
         ('a', BrailleChar(enum_set!(BrailleDot::Dot1))),
         ('b', BrailleChar(BrailleDot::Dot1 | BrailleDot::Dot2)),
         ('c', BrailleChar(BrailleDot::Dot1 | BrailleDot::Dot4)),
-- 
2.43.0


From 30ca891884142695ef51b1f7608d67c40a700e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:16 +0000
Subject: [PATCH 19/19] fix: louis query reports a part without = instead of
 panicking and keeps = in values

---
 src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 31c1fff..ad117ee 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -438,14 +438,14 @@ fn main() {
         } => check_yaml(yaml_files, summary),
         Commands::Query { query } => match metadata::index() {
             Ok(index) => {
-                let query = query
+                let parts: Option<Vec<_>> = query
                     .split(',')
-                    .map(|s| {
-                        let parts: Vec<_> = s.split('=').collect();
-                        (parts[0].to_string(), parts[1].to_string())
-                    })
+                    .map(|s| s.split_once('=').map(|(k, v)| (k.to_string(), v.to_string())))
                     .collect();
-                println!("{:?}", metadata::find(&index, query));
+                match parts {
+                    Some(parts) => println!("{:?}", metadata::find(&index, parts)),
+                    None => eprintln!("Invalid query {:?}, expected key=value,...", query),
+                }
             }
             Err(e) => {
                 eprint!("Could not index all tables: {:?}", e)
-- 
2.43.0

