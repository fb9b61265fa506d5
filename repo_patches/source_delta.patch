From 65b22f7071cfc92ee7f1a44af8d2dfce0c9de0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:14 +0000
Subject: [PATCH 1/4] fix: hash Datum trees without recursing along lists and
 heads

The derived Hash recursed once per list element, so hashing a tree that
contains a very long list overflowed the stack.  Looking up a head form
in the HashMap bindings hashes it, so parsing such input aborted the
process.  Hash now loops over the same links that PartialEq loops over.
---
 core/src/datum.rs | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/core/src/datum.rs b/core/src/datum.rs
index 38799ac..34b39ce 100644
--- a/core/src/datum.rs
+++ b/core/src/datum.rs
@@ -1,6 +1,6 @@
 //! Datum type used in the abstract syntax tree (AST) returned by parsing.
 
-use core::ops::Deref;
+use core::{ops::Deref, mem::discriminant, hash::{Hash, Hasher}};
 
 
 /// Implementations provided for ready use.
@@ -14,7 +14,7 @@ pub mod premade {
 /// by the `ExtraType` parameter, and it is parameterized over the `DatumRef`
 /// type used to refer to the other `Datum`s in an AST.  It can also be used for
 /// DAGs.
-#[derive(Copy, Clone, Eq, Hash, Debug)]
+#[derive(Copy, Clone, Eq, Debug)]
 pub enum Datum<TextType, ExtraType, DatumRef>
     where DatumRef: DerefTryMut<Target = Datum<TextType, ExtraType, DatumRef>>,
 {
@@ -92,6 +92,41 @@ impl<TT1, TT2, ET1, ET2, DR1, DR2>
     }
 }
 
+/// This hashes equal values equally, and it avoids stack overflows for the same
+/// tree shapes as our `PartialEq` implementation does.
+impl<TT, ET, DR> Hash for Datum<TT, ET, DR>
+    where DR: DerefTryMut<Target = Datum<TT, ET, DR>>,
+          TT: Hash,
+          ET: Hash,
+{
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        use Datum::*;
+
+        let mut datum = self;
+        loop {
+            discriminant(datum).hash(state);
+            match datum {
+                Text(txt)
+                    => break txt.hash(state),
+                Combination{operator, operands}
+                    => {
+                        (**operands).hash(state);
+                        datum = &**operator;
+                    },
+                List{elem, next}
+                    => {
+                        (**elem).hash(state);
+                        datum = &**next;
+                    },
+                EmptyNest | EmptyList
+                    => break,
+                Extra(et)
+                    => break et.hash(state),
+            }
+        }
+    }
+}
+
 
 /// Exists to be used similarly to but differently than
 /// [`DerefMut`](http://doc.rust-lang.org/std/ops/trait.DerefMut.html) so that
-- 
2.43.0


From ff7162c95243e1604820a225ea886d7dbbefe104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:14 +0000
Subject: [PATCH 2/4] fix: stop parsing right after the first error in the
 one-call functions

The take_while adapters only notice the error when the next result has
already been parsed.  So parse_str, parse_stream and parse_text_with
still called macros, allocated datums and requested input from the
source after the error that they return last.
---
 core/src/premade/inmem.rs | 54 +++++++++++++++++++--------------------
 src/common/helper.rs      | 20 +++++++--------
 2 files changed, 35 insertions(+), 39 deletions(-)

diff --git a/core/src/premade/inmem.rs b/core/src/premade/inmem.rs
index 3e3cdb1..ee1df39 100644
--- a/core/src/premade/inmem.rs
+++ b/core/src/premade/inmem.rs
@@ -1,8 +1,6 @@
 //! A `Parser` for parsing inputs that are in-memory strings, for no-heap
 //! constrained applications.
 
-use core::iter::TakeWhile;
-
 use crate::{
     Parser as ParserStruct, ParseIter, ParseIterItem, Combiner, Error, Text as _,
     parser::premade::{SliceDatumAllocator, PairOperatorBindings},
@@ -251,38 +249,38 @@ pub fn parse_text_with<'t, 'p, 'input, 'alloc, 'funs, 'bind, Extra, CombinerErro
     input: &'t Text<'input, 'alloc, Extra>,
     parser: &'p mut Parser<'input, 'alloc, 'funs, 'bind, Extra, CombinerError>,
 )
-    // Note: Couldn't figure out how to make this work:
-    // -> impl Iterator<Item = TopFormResult<'input, 'alloc, 'funs, 'bind,
-    //                                       Extra, CombinerError>>
-    -> ParseTextWith<'t, 'p, 'input, 'alloc, 'funs, 'bind, Extra, CombinerError,
-                     impl FnMut(&Result<DatumType<'input, 'alloc, Extra>,
-                                        Error<StrPos<'input>, CombinerError>>)
-                                -> bool>
+    -> ParseTextWith<'t, 'p, 'input, 'alloc, 'funs, 'bind, Extra, CombinerError>
 where
     Extra: Eq,
 {
-    let input_source_stream = input.iter();
-    let mut already_errored = false;
-    parser.parse(input_source_stream)
-          .take_while(move |r|
-                      if already_errored {
-                          false
-                      } else {
-                          if r.is_err() {
-                              already_errored = true;
-                          }
-                          true
-                      })
+    UpToFirstErr(Some(parser.parse(input.iter())))
 }
 
 type ParseTextWith<'text, 'parser, 'input, 'alloc, 'funs, 'bind,
-                   Extra, CombinerError,
-                   Predicate>
-    = TakeWhile<ParseIter<'parser,
-                          Parser<'input, 'alloc, 'funs, 'bind,
-                                 Extra, CombinerError>,
-                          text::iter::Iter<'text, Text<'input, 'alloc, Extra>>>,
-                Predicate>;
+                   Extra, CombinerError>
+    = UpToFirstErr<ParseIter<'parser,
+                             Parser<'input, 'alloc, 'funs, 'bind,
+                                    Extra, CombinerError>,
+                             text::iter::Iter<'text, Text<'input, 'alloc, Extra>>>>;
+
+/// Yields the items of another iterator up to and including the first `Err`,
+/// and then never advances the other iterator again.
+#[derive(Clone, Debug)]
+pub struct UpToFirstErr<I>(Option<I>);
+
+impl<'input, I, T, CE> Iterator for UpToFirstErr<I>
+    where I: Iterator<Item = Result<T, Error<StrPos<'input>, CE>>>,
+{
+    type Item = I::Item;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        let item = self.0.as_mut()?.next();
+        if let Some(Err(_)) = item {
+            self.0 = None;
+        }
+        item
+    }
+}
 
 
 #[cfg(test)]
diff --git a/src/common/helper.rs b/src/common/helper.rs
index ea51675..11b26fc 100644
--- a/src/common/helper.rs
+++ b/src/common/helper.rs
@@ -14,15 +14,13 @@ pub(crate) fn collect_up_to_first_err<'p, CC, DA, OB, S>
           Parser<CC, DA, OB>: 'p,
           S: SourceStream<DA>,
 {
-    let mut already_errored = false;
-    pi.take_while(|r|
-                  if already_errored {
-                      false
-                  } else {
-                      if r.is_err() {
-                          already_errored = true;
-                      }
-                      true
-                  })
-      .collect()
+    let mut results = Vec::new();
+    for r in pi {
+        let errored = r.is_err();
+        results.push(r);
+        if errored {
+            break;
+        }
+    }
+    results
 }
-- 
2.43.0


From c4756a46781f8baebb49b0d87f7e72317f3453fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:02 +0000
Subject: [PATCH 3/4] fix: make kul_core a no_std crate

The crate documents that it is no_std but did not declare it, so it
linked the standard library and could not be used by a freestanding
program.
---
 core/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index f6c6eaa..fbbde18 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -63,6 +63,9 @@
 //! grapheme clusters are always preserved where it makes sense for our format.
 
 
+#![no_std]
+
+
 // TODO?: Should the Kernel terms be dropped in favor of terms like "text
 // macro", "form macro", and "constructor" instead?  Those terms are probably
 // more familiar for a language focused on textual syntax, vs. the Kernel terms
-- 
2.43.0


From ee72bbd2799e13e9abe02dfdd6b016aadacdfcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:08 +0000
Subject: [PATCH 4/4] fix: drop trees with shared branches without recursion or
 repeated work

When one of two branches had other owners, algo1 gave up and let the
other branch be dropped recursively, or carried the shared branch along
and restructured around it again and again.  Dropping a long Rc list
with shared elements overflowed the stack or took quadratic time.  A
reference to a shared branch is now dropped right away, which cannot
recurse, and the work continues with the other branch.
---
 src/drop.rs | 117 ++++++++++++++++------------------------------------
 1 file changed, 35 insertions(+), 82 deletions(-)

diff --git a/src/drop.rs b/src/drop.rs
index 596809e..f89e074 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -91,9 +91,6 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
     #[derive(PartialEq, Eq, Copy, Clone)]
     enum Class { Branch, Leaf }
 
-    #[derive(Copy, Clone)]
-    enum Side { Left, Right }
-
     // Note: We're assumimg that these closures can be optimized and inlined.
     // If not, they should be made into functions that can be.  Closures allow a
     // more convenient definition (the type annotations in them are needed,
@@ -119,29 +116,6 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
         }
     };
 
-    // Mode for locking the tree-node path pattern chosen for restructuring the
-    // tree, during each phase of iteration.  Needed to avoid possible infinite
-    // loops on repeating states, which could otherwise occur because this
-    // algorithm can potentially use either side of the branches to work with.
-    // If the unwrap-ability of the nodes, which affects which branch side is
-    // selected, and for types like `Arc` can change dynamically, has particular
-    // patterns, then repeating states could occur.
-    //
-    // E.g.:
-    // 1) left branch (B), right sub (E);
-    // 2) right branch (A) (original top), left sub (E) (sub of #1);
-    // 3) becomes #1 again, could repeat infinitely.
-    //
-    // By locking the mode, such repeated states are prevented, by allowing only
-    // one path pattern to be used for restructuring the tree, until the current
-    // phase has completed.  The mode is reset after a phase, so that all
-    // possible modes can again be available to process the remainder of the
-    // tree, which allows flexibility (i.e. ability to mutate either branch)
-    // when the `Datum` reference type uses something like `Rc` or `Arc` where
-    // unwrapping might fail when there are additional strong references to a
-    // subset of nodes.
-    let mut mode_lock: Option<Side> = None;
-
     // let depth = |side, mut datum: &Datum<TT, ET, DR>| {
     //     let mut depth: usize = 0;
     //     loop {
@@ -180,68 +154,67 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
           => {
               let (left_class, right_class) = (class(&left_dr), class(&right_dr));
 
-              // Try to select a side that also branches.  When both branch and
-              // we're not yet locked in a mode, give preference to the left
-              // side (which is often shallower than the right for long lists,
-              // which are the most common deep structure).  When locked in a
-              // mode, we must go with its side, until we reach its end.
-              let (mode, selected_datum, mut reuse_dr, other_class, other_dr)
-                  = match (mode_lock, left_class, right_class)
+              // Try to select a side that also branches.  When both branch, give
+              // preference to the left side (which is often shallower than the
+              // right for long lists, which are the most common deep
+              // structure).  Always restructuring from the left to the right
+              // moves each node at most once and so can't repeat states.
+              let (selected_datum, mut reuse_dr, other_class, other_dr)
+                  = match (left_class, right_class)
               {
-                  // If the left node is a branch and we're either at the end of
-                  // a mode phase where the right node is a leaf, or we're
-                  // locked in left mode, we must be able to take out the left
-                  // datum to proceed.
-                  | (_, Class::Branch, Class::Leaf)
-                  | (Some(Side::Left), Class::Branch, Class::Branch)
+                  // If only one node is a branch, we must be able to take out
+                  // its datum to proceed.
+                  | (Class::Branch, Class::Leaf)
                   =>
                       if let Some(left_datum) = trytake(&mut left_dr) {
-                          (Side::Left, left_datum, left_dr, right_class, right_dr)
+                          (left_datum, left_dr, right_class, right_dr)
                       } else {
                           // Abort, do nothing more, drop `left_dr` and `right_dr`
                           break
                       },
 
-                  // If the right node is a branch and we're either at the end
-                  // of a mode phase where the left node is a leaf, or we're
-                  // locked in right mode, we must be able to take out the right
-                  // datum to proceed.
-                  | (_, Class::Leaf, Class::Branch)
-                  | (Some(Side::Right), Class::Branch, Class::Branch)
+                  | (Class::Leaf, Class::Branch)
                   =>
                       if let Some(right_datum) = trytake(&mut right_dr) {
-                          (Side::Right, right_datum, right_dr, left_class, left_dr)
+                          (right_datum, right_dr, left_class, left_dr)
                       } else {
                           // Abort, do nothing more, drop `left_dr` and `right_dr`
                           break
                       },
 
-                  // If both nodes are branches and we're not locked in a mode,
-                  // we must be able to take out one of the datums to proceed.
-                  // Preference is given to the left datum, but the right can be
-                  // used instead.
-                  | (None, Class::Branch, Class::Branch)
+                  // If both nodes are branches, we must be able to take out one
+                  // of the datums to proceed.
+                  | (Class::Branch, Class::Branch)
                   =>
                       if let Some(left_datum) = trytake(&mut left_dr) {
-                          (Side::Left, left_datum, left_dr, right_class, right_dr)
-                      } else if let Some(right_datum) = trytake(&mut right_dr) {
-                          (Side::Right, right_datum, right_dr, left_class, left_dr)
+                          (left_datum, left_dr, right_class, right_dr)
                       } else {
-                          // Abort, do nothing more, drop `left_dr` and `right_dr`
-                          break
+                          // The left node has other owners, so dropping our
+                          // reference to it does not drop its branches.  This
+                          // must be done before taking out the right datum,
+                          // because the right might refer to the same node or
+                          // contain the other references to it.
+                          drop(left_dr);
+                          if let Some(right_datum) = trytake(&mut right_dr) {
+                              top_datum = right_datum;
+                              continue
+                          } else {
+                              // Abort, do nothing more, drop `right_dr`
+                              break
+                          }
                       },
 
                   // If neither left nor right is a branch, we're all done.
                   // Abort, do nothing more, drop `left_dr` and `right_dr`.
-                  | (_, Class::Leaf, Class::Leaf)
+                  | (Class::Leaf, Class::Leaf)
                   => break
               };
 
               // Restructure or drop, and then iterate on branch next
               match (selected_datum, other_class) {
                   // If both sides are branches, we restructure the tree
-                  // mutatively to reduce the branching depth of the selected
-                  // side (without dropping any of our nodes yet)
+                  // mutatively to reduce the branching depth of the left side
+                  // (without dropping any of our nodes yet)
                   (   Combination{operator: sel_left, operands: sel_right}
                     | List{elem: sel_left, next: sel_right},
                    Class::Branch)
@@ -251,26 +224,11 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
                       // the restructured tree on the opposite side.  This is
                       // safe because `selected_datum` was already taken out of
                       // it.
-                      let (oldsub, newsub_left, newsub_right) = match mode {
-                          Side::Left => (sel_left, sel_right, other_dr),
-                          Side::Right => (sel_right, other_dr, sel_left)
-                      };
-                      set(&mut reuse_dr, temp_branch(newsub_left, newsub_right));
+                      set(&mut reuse_dr, temp_branch(sel_right, other_dr));
                       // The new top node of the restructured tree for the next
                       // loop iteration, so it can be further restructured so
                       // nodes can eventually be dropped.
-                      let (top_left, top_right) = match mode {
-                          Side::Left => (oldsub, reuse_dr),
-                          Side::Right => (reuse_dr, oldsub)
-                      };
-                      top_datum = temp_branch(top_left, top_right);
-                      // If mode wasn't locked yet, lock it to the path pattern
-                      // we were able to get, to prevent weird path pattern
-                      // alternations that could cause infinite loops of
-                      // repeating restructuring states
-                      if mode_lock.is_none() {
-                          mode_lock = Some(mode);
-                      }
+                      top_datum = temp_branch(sel_left, reuse_dr);
                   },
 
                   // If the other side is a leaf, we allow the automatic
@@ -284,11 +242,6 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
                       // side that does branch, so it can be further
                       // restructured and dropped.
                       top_datum = selected_datum;
-                      // Reset the mode to unlocked, now that the top node has
-                      // been removed from the tree.  Weird repeating states
-                      // aren't possible now (I think), so the next iteration is
-                      // allowed to select whatever path pattern it can.
-                      mode_lock = None;
                   },
 
                   _ => unreachable!()
-- 
2.43.0

