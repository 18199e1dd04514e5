From c6c3beabb7c00d7a38a09ed304f67d0aa14f5b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:41 +0000
Subject: [PATCH 1/9] fix: keep a chain map's bindings if a clone panics while
 consolidating

---
 crates/chain-map/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/chain-map/src/lib.rs b/crates/chain-map/src/lib.rs
index 8e4e51d..4280fbe 100644
--- a/crates/chain-map/src/lib.rs
+++ b/crates/chain-map/src/lib.rs
@@ -110,6 +110,11 @@ where
 
   fn consolidate_(&mut self) -> &mut FxHashMap<K, V> {
     if self.stack.len() != 1 {
+      // clone what is shared before taking the stack apart, so that if a clone panics, then `self`
+      // is unchanged.
+      for m in &mut self.stack {
+        Rc::make_mut(m);
+      }
       let mut one = FxHashMap::<K, V>::default();
       for m in self.stack.drain(..) {
         let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());
-- 
2.43.0


From de93f34e0f53b9e98cd517af2f761ee0bd9de10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 2/9] fix: give no offset for a position or range that is not
 in the text

---
 crates/text-pos/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/text-pos/src/lib.rs b/crates/text-pos/src/lib.rs
index e70186a..16e542e 100644
--- a/crates/text-pos/src/lib.rs
+++ b/crates/text-pos/src/lib.rs
@@ -66,8 +66,9 @@ impl PositionDb {
   }
 
   fn text_size_utf8(&self, pos: PositionUtf8) -> Option<TextSize> {
-    let lc = line_index::LineCol { line: pos.line, col: pos.col };
-    self.inner.offset(lc)
+    let ret = self.inner.line(pos.line)?.start().checked_add(TextSize::from(pos.col))?;
+    // the col might be past the end of the line, or inside of a char.
+    (self.position_utf8(ret)? == pos).then_some(ret)
   }
 
   fn range_utf8(&self, text_range: TextRange) -> Option<RangeUtf8> {
@@ -78,7 +79,9 @@ impl PositionDb {
   }
 
   fn text_range_utf8(&self, range: RangeUtf8) -> Option<TextRange> {
-    Some(TextRange::new(self.text_size_utf8(range.start)?, self.text_size_utf8(range.end)?))
+    let start = self.text_size_utf8(range.start)?;
+    let end = self.text_size_utf8(range.end)?;
+    (start <= end).then(|| TextRange::new(start, end))
   }
 
   fn position_to_utf16(&self, pos: PositionUtf8) -> Option<PositionUtf16> {
-- 
2.43.0


From 2e097307271b49a05949c28c363126e0ee02ed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 3/9] fix: do not consider the line index valid because of a
 skipped change

---
 crates/apply-changes/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/apply-changes/src/lib.rs b/crates/apply-changes/src/lib.rs
index e584d20..0cb3d0f 100644
--- a/crates/apply-changes/src/lib.rs
+++ b/crates/apply-changes/src/lib.rs
@@ -39,9 +39,9 @@ pub fn get(contents: &mut String, mut changes: Vec<Change>) {
     if index_valid <= range.end.line {
       pos_db = text_pos::PositionDb::new(contents);
     }
-    index_valid = range.start.line;
-    if let Some(range) = pos_db.text_range_utf16(range) {
-      contents.replace_range(std::ops::Range::<usize>::from(range), &change.text);
+    if let Some(text_range) = pos_db.text_range_utf16(range) {
+      index_valid = range.start.line;
+      contents.replace_range(std::ops::Range::<usize>::from(text_range), &change.text);
     }
   }
 }
-- 
2.43.0


From de61bf41a81fd339df66decf24f5cc8755e1172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:00 +0000
Subject: [PATCH 4/9] fix: report a construct as empty exactly if it has no
 tokens

---
 crates/event-parse/src/lib.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 5a5d6bf..0000bd1 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -31,13 +31,14 @@ use token::{Token, Triviable};
 pub struct Parser<'a, K, E> {
   tokens: &'a [Token<'a, K>],
   tok_idx: usize,
+  bumps: usize,
   events: Vec<Option<Event<K, E>>>,
 }
 
 impl<'a, K, E> Parser<'a, K, E> {
   /// Returns a new parser for the given tokens.
   pub fn new(tokens: &'a [Token<'a, K>]) -> Self {
-    Self { tokens, tok_idx: 0, events: Vec::new() }
+    Self { tokens, tok_idx: 0, bumps: 0, events: Vec::new() }
   }
 
   /// Starts parsing a syntax construct.
@@ -62,7 +63,7 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn enter(&mut self) -> Entered {
     let ev_idx = self.events.len();
     self.events.push(None);
-    Entered { bomb: DropBomb::new("Entered markers must be exited"), ev_idx, tok_idx: self.tok_idx }
+    Entered { bomb: DropBomb::new("Entered markers must be exited"), ev_idx, bumps: self.bumps }
   }
 
   /// Abandons parsing a syntax construct.
@@ -89,7 +90,7 @@ impl<'a, K, E> Parser<'a, K, E> {
     assert!(ev.is_none());
     *ev = Some(Event::Enter(kind, None));
     self.events.push(Some(Event::Exit));
-    Exited { ev_idx: en.ev_idx, is_empty: self.tok_idx == en.tok_idx }
+    Exited { ev_idx: en.ev_idx, bumps: en.bumps, is_empty: self.bumps == en.bumps }
   }
 
   /// Starts parsing a syntax construct and makes it the parent of the given
@@ -104,7 +105,9 @@ impl<'a, K, E> Parser<'a, K, E> {
   ///
   /// On internal error.
   pub fn precede(&mut self, ex: Exited) -> Entered {
-    let ret = self.enter();
+    let mut ret = self.enter();
+    // the new construct will contain the preceded one.
+    ret.bumps = ex.bumps;
     #[allow(clippy::match_on_vec_items)]
     match self.events[ex.ev_idx] {
       Some(Event::Enter(_, ref mut parent)) => {
@@ -142,7 +145,7 @@ impl<'a, K, E> Parser<'a, K, E> {
   /// }
   /// ```
   pub fn save(&self) -> Save {
-    Save { tok_idx: self.tok_idx, events_len: self.events.len() }
+    Save { tok_idx: self.tok_idx, bumps: self.bumps, events_len: self.events.len() }
   }
 
   /// Returns whether there were _no_ errors since the save, i.e. whether we did
@@ -153,6 +156,7 @@ impl<'a, K, E> Parser<'a, K, E> {
       self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));
     if error_since {
       self.tok_idx = save.tok_idx;
+      self.bumps = save.bumps;
       self.events.truncate(save.events_len);
     }
     !error_since
@@ -210,6 +214,7 @@ where
     let ret = self.peek().expect("bump with no tokens");
     self.events.push(Some(Event::Token));
     self.tok_idx += 1;
+    self.bumps += 1;
     ret
   }
 
@@ -336,7 +341,7 @@ where
 pub struct Entered {
   bomb: DropBomb,
   ev_idx: usize,
-  tok_idx: usize,
+  bumps: usize,
 }
 
 /// A marker for a syntax construct that has been fully parsed.
@@ -358,6 +363,7 @@ pub struct Entered {
 #[derive(Debug, Clone, Copy)]
 pub struct Exited {
   ev_idx: usize,
+  bumps: usize,
   is_empty: bool,
 }
 
@@ -374,6 +380,7 @@ impl Exited {
 #[must_use]
 pub struct Save {
   tok_idx: usize,
+  bumps: usize,
   events_len: usize,
 }
 
-- 
2.43.0


From d61ee283c79002df618e26e52acbafc529493f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:01 +0000
Subject: [PATCH 5/9] fix: allow preceding a construct again after abandoning

---
 crates/event-parse/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 0000bd1..da94cc3 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -63,7 +63,8 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn enter(&mut self) -> Entered {
     let ev_idx = self.events.len();
     self.events.push(None);
-    Entered { bomb: DropBomb::new("Entered markers must be exited"), ev_idx, bumps: self.bumps }
+    let bomb = DropBomb::new("Entered markers must be exited");
+    Entered { bomb, ev_idx, bumps: self.bumps, preceded: None }
   }
 
   /// Abandons parsing a syntax construct.
@@ -77,6 +78,10 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn abandon(&mut self, mut en: Entered) {
     en.bomb.defuse();
     assert!(self.events[en.ev_idx].is_none());
+    // if this was to be the parent of a completed construct, allow that to be preceded again.
+    if let Some(Some(Event::Enter(_, parent))) = en.preceded.map(|idx| &mut self.events[idx]) {
+      *parent = None;
+    }
   }
 
   /// Finishes parsing a syntax construct.
@@ -108,6 +113,7 @@ impl<'a, K, E> Parser<'a, K, E> {
     let mut ret = self.enter();
     // the new construct will contain the preceded one.
     ret.bumps = ex.bumps;
+    ret.preceded = Some(ex.ev_idx);
     #[allow(clippy::match_on_vec_items)]
     match self.events[ex.ev_idx] {
       Some(Event::Enter(_, ref mut parent)) => {
@@ -342,6 +348,7 @@ pub struct Entered {
   bomb: DropBomb,
   ev_idx: usize,
   bumps: usize,
+  preceded: Option<usize>,
 }
 
 /// A marker for a syntax construct that has been fully parsed.
-- 
2.43.0


From 1563b5a5ce35da30036ebeba55895d12f898e8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:01 +0000
Subject: [PATCH 6/9] fix: keep trivia at the end of the outermost construct

---
 crates/event-parse/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index da94cc3..0e970ff 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -287,6 +287,10 @@ where
           }
         }
         Event::Exit => {
+          // what is left of the trivia belongs to the outermost construct.
+          if levels == 1 {
+            self.eat_trivia(&mut to_enter, sink);
+          }
           if to_enter.pop().is_none() {
             sink.exit();
           }
-- 
2.43.0


From 2e22f04162a904dab1e11efb22255d70608dde21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 7/9] fix: enter the outermost construct of an empty parse

---
 crates/event-parse/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 0e970ff..49f572e 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -262,9 +262,6 @@ where
       match ev {
         Event::Enter(kind, mut parent) => {
           assert!(kinds.is_empty());
-          if fst.is_none() {
-            fst = Some(kind);
-          }
           kinds.push(kind);
           while let Some(p) = parent {
             match self.events[p].take() {
@@ -277,6 +274,10 @@ where
               ev => unreachable!("{:?} was {:?}, not Enter", parent, ev),
             }
           }
+          if fst.is_none() {
+            // the last kind is the outermost.
+            fst = kinds.last().copied();
+          }
           for kind in kinds.drain(..).rev() {
             // keep as much trivia as possible outside of what we're entering.
             if levels != 0 {
-- 
2.43.0


From 4b8203c77bcad95ce35531f62dd2376895f651ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 8/9] fix: keep trivia outside of constructs that end in empty
 constructs

---
 crates/event-parse/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 49f572e..13b8a60 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -279,10 +279,6 @@ where
             fst = kinds.last().copied();
           }
           for kind in kinds.drain(..).rev() {
-            // keep as much trivia as possible outside of what we're entering.
-            if levels != 0 {
-              self.eat_trivia(&mut to_enter, sink);
-            }
             to_enter.push(kind);
             levels += 1;
           }
@@ -302,7 +298,12 @@ where
           }
         }
         Event::Token => {
+          // keep as much trivia as possible outside of what we're entering. do this only now, since
+          // if what we're entering has no tokens, it will not be entered.
+          let outermost = usize::from(levels == to_enter.len()).min(levels);
+          let inner = to_enter.split_off(outermost);
           self.eat_trivia(&mut to_enter, sink);
+          to_enter.extend(inner);
           self.token(&mut to_enter, sink, self.tokens[self.tok_idx]);
         }
         Event::Error(expected) => sink.error(expected),
-- 
2.43.0


From e543a0e72310734fa69b89a2d3e3a6212180c6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 9/9] fix: render positions at the largest line or column

---
 crates/text-pos/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/text-pos/src/lib.rs b/crates/text-pos/src/lib.rs
index 16e542e..d253417 100644
--- a/crates/text-pos/src/lib.rs
+++ b/crates/text-pos/src/lib.rs
@@ -164,7 +164,7 @@ pub struct PositionUtf16 {
 
 impl fmt::Display for PositionUtf16 {
   fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-    write!(f, "{}:{}", self.line + 1, self.col + 1)
+    write!(f, "{}:{}", u64::from(self.line) + 1, u64::from(self.col) + 1)
   }
 }
 
@@ -190,7 +190,7 @@ impl RangeUtf16 {
 impl fmt::Display for RangeUtf16 {
   fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
     if self.start.line == self.end.line {
-      write!(f, "{}-{}", self.start, self.end.col + 1)
+      write!(f, "{}-{}", self.start, u64::from(self.end.col) + 1)
     } else {
       write!(f, "{}-{}", self.start, self.end)
     }
-- 
2.43.0

