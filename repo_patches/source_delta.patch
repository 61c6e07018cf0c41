From 29051152dc844b285e839c3e3645f98d325652b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 01/22] fix: serialize Bell as the number which deserialization
 expects

---
 src/bell.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bell.rs b/src/bell.rs
index 5070f21..b732159 100644
--- a/src/bell.rs
+++ b/src/bell.rs
@@ -393,13 +393,14 @@ impl<'de> Deserialize<'de> for Bell {
     }
 }
 
-// Serialise as a u64
+// Serialise as a u64.  This has to be the 1-indexed number (not the 0-indexed index), because that's
+// what deserialising a number expects.
 #[cfg(feature = "serde")]
 impl Serialize for Bell {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
         S: Serializer,
     {
-        serializer.serialize_u64(self.index as u64)
+        serializer.serialize_u64(self.number() as u64)
     }
 }
-- 
2.43.0


From 3d488d2dfb9a06a20b74a0777167cfb2798e8c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 02/22] fix: deserializing a Stage of zero bells is an error,
 not a panic

---
 src/stage.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/stage.rs b/src/stage.rs
index cadc537..4ef5c1e 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -383,7 +383,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     fn visit_i16<E>(self, v: i16) -> Result<Self::Value, E>
@@ -397,7 +397,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     fn visit_i32<E>(self, v: i32) -> Result<Self::Value, E>
@@ -411,7 +411,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
@@ -425,7 +425,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     /// Attempt to parse a [`Stage`] from a string.  This matches standard [`Stage`] names on up to
@@ -445,7 +445,7 @@ impl<'de> Visitor<'de> for StageVisitor {
 #[inline(always)]
 fn try_parse_stage<E: Error>(val: i64) -> Result<Stage, E> {
     if val >= 0 {
-        Ok(Stage::new(val as usize))
+        Stage::try_from(val as usize).map_err(E::custom)
     } else {
         Err(E::custom(format!("negative Stage: {}", val)))
     }
-- 
2.43.0


From 85b0ee1453ba11086376e57fa08556129595f569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 03/22] fix: AnnotBlock::extend_range only copies the
 annotations inside the range

---
 src/block.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index cd0ef2c..7a972ed 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -324,6 +324,10 @@ impl<A> AnnotBlock<A> {
         let transposition =
             Row::solve_xa_equals_b(other.get_row(range.start).unwrap(), self.leftover_row())?;
 
+        // Get the annotations which correspond to `range`.  We do this before modifying `self`, so that
+        // `self` is left unchanged if this panics because `range` is out of bounds
+        let annots = &other.annots[range.clone()];
+
         // Add the transposed rows to `self`
         self.rows.pop(); // If we don't remove the leftover row, then it will get added twice
         self.rows
@@ -332,7 +336,7 @@ impl<A> AnnotBlock<A> {
                        // first statement would prevent this code from being executed
 
         // Add the annotations to `self`
-        self.annots.extend(other.annots.iter().cloned());
+        self.annots.extend(annots.iter().cloned());
 
         Ok(())
     }
-- 
2.43.0


From 51f70d579917ee3ccaa53318d493a530f21a7bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 04/22] fix: SameStageVec::extend_range_transposed checks the
 stage of both operands

---
 src/row/same_stage_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 696b116..c89d40a 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -303,6 +303,7 @@ impl SameStageVec {
         range: impl RangeBounds<usize>,
     ) -> Result<(), IncompatibleStages> {
         IncompatibleStages::test_err(self.stage, transposition.stage())?;
+        IncompatibleStages::test_err(self.stage, other.stage)?;
         // TODO: Write a vectorised routine for this
         self.bells.extend(
             other.bells[other.to_bell_range(range)]
-- 
2.43.0


From 86f20ad0f62346c852a78b78d6bd6b6d71a3ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 05/22] fix: SameStageVec::extend_transposed_from_within panics
 if the range is out of bounds

---
 src/row/same_stage_vec.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index c89d40a..e48cbb5 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -323,7 +323,14 @@ impl SameStageVec {
         IncompatibleStages::test_err(self.stage, transposition.stage())?;
         // Copy the bells one-by-one, because otherwise we'd have to borrow `self.bells` twice and
         // the borrow checker doesn't like that.
-        for i in self.to_bell_range(range) {
+        let bell_range = self.to_bell_range(range);
+        // Check the bounds up-front, since otherwise we could read the bells which this loop pushes
+        assert!(
+            bell_range.end <= self.bells.len(),
+            "range is out of bounds for a `SameStageVec` of length {}",
+            self.len()
+        );
+        for i in bell_range {
             let transposed_bell = transposition[self.bells[i].index()];
             self.bells.push(transposed_bell);
         }
-- 
2.43.0


From 8f84289a842d682e517cc331a493e1a4214ebb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 06/22] fix: SameStageVec::parse returns an error for the empty
 string

---
 src/row/same_stage_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index e48cbb5..2de13b9 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -103,7 +103,7 @@ impl SameStageVec {
 
         // Parse the first line before creating the `SameStageVec` (since we need to know upfront
         // what the stage is going to be).
-        let (_one, first_line) = line_iter.next().unwrap(); // strings always contain at least one line
+        let (_one, first_line) = line_iter.next().unwrap_or((1, "")); // `"".lines()` is empty
         let first_row =
             RowBuf::parse(first_line).map_err(|err| ParseError::InvalidRow { line_num: 1, err })?;
         // Create a `SameStageVec`, which starts out containing the first row
-- 
2.43.0


From 04434e177437893f57b7d7e87b66bc79d947e93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 07/22] fix: SameStageVec getters and split don't overflow for
 very large indices

---
 src/row/same_stage_vec.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 2de13b9..b6c14bc 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -371,7 +371,7 @@ impl SameStageVec {
     /// - `self == a.extend_from_buf(&b)` (i.e. no rows are created or destroyed)
     pub fn split(self, index: usize) -> Option<(Self, Self)> {
         let (left_bells, right_bells) =
-            utils::split_vec(self.bells, index * self.stage.num_bells())?;
+            utils::split_vec(self.bells, index.saturating_mul(self.stage.num_bells()))?;
         Some((
             // Both of these are safe because we split `self.bells` at an integer multiple of
             // `self.stage`, thus preserving the row boundaries and upholding the invariants
@@ -397,7 +397,8 @@ impl SameStageVec {
     /// Gets the [`Range`] of `self.bells` which would contain the [`Row`] at a given `index`.
     fn get_range_of_row(&self, index: usize) -> Range<usize> {
         let s = self.stage.num_bells();
-        index * s..(index + 1) * s
+        // Saturate so that indices which are too big are out of bounds, rather than overflowing
+        index.saturating_mul(s)..index.saturating_add(1).saturating_mul(s)
     }
 }
 
-- 
2.43.0


From d6e5aa9bb1de4b34352470378f06727b2b7c2c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 08/22] fix: Row::fast_hash doesn't overflow on 16 or more
 bells

---
 src/row/borrowed.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/row/borrowed.rs b/src/row/borrowed.rs
index 7c2f89a..b5baabe 100644
--- a/src/row/borrowed.rs
+++ b/src/row/borrowed.rs
@@ -802,11 +802,13 @@ impl Row {
     /// if they are in fact the same.  This is ludicrously inefficient in terms of hash density,
     /// but it is fast and perfect and in most cases will suffice.
     pub fn fast_hash(&self) -> usize {
-        let mut accum = 0;
-        let mut multiplier = 1;
+        let mut accum = 0usize;
+        let mut multiplier = 1usize;
         for b in self.bell_iter() {
-            accum += b.index() * multiplier;
-            multiplier *= self.stage().num_bells();
+            // The hash is computed modulo 2^64.  It is still perfect on 16 bells because only the
+            // last multiplier (which is not used) overflows.
+            accum = accum.wrapping_add(b.index().wrapping_mul(multiplier));
+            multiplier = multiplier.wrapping_mul(self.stage().num_bells());
         }
         accum
     }
-- 
2.43.0


From d2ef2f17bcbdd83cfd502c305ce5ef5917569488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:28 +0000
Subject: [PATCH 09/22] fix: PnBlock::parse reports the right byte range for
 errors

---
 src/place_not.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/place_not.rs b/src/place_not.rs
index 6532142..af535b3 100644
--- a/src/place_not.rs
+++ b/src/place_not.rs
@@ -515,8 +515,7 @@ impl PnBlock {
         // Tracks the index of the first byte in the chunk of PN currently being read.  This is
         // used so that we can return a byte range in the case of an error
         let mut current_pn_start_index = 0;
-        for (i, m) in tok_indices {
-            let index = i + byte_offset;
+        for (index, m) in tok_indices {
             match m {
                 // If the char is a bell name, then add it to the places
                 CharMeaning::Bell(b) => {
@@ -537,7 +536,7 @@ impl PnBlock {
                         // This unsafety is OK, because we have just sorted the slice
                         let new_pn = unsafe {
                             PlaceNot::from_sorted_slice(&places, stage).map_err(|e| {
-                                PnBlockParseError::PnError(current_pn_start_index..index + 1, e)
+                                PnBlockParseError::PnError(current_pn_start_index..index, e)
                             })
                         }?;
                         places.clear();
-- 
2.43.0


From a847742ea84329207d22b88427276b00692f650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 10/22] fix: Regex::all_runs normalises its regexes

---
 src/music.rs | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/music.rs b/src/music.rs
index 65710c4..7d825d3 100644
--- a/src/music.rs
+++ b/src/music.rs
@@ -226,24 +226,18 @@ impl Regex {
             // An iterator that yields the bells forming this run in ascending order
             let run_iterator = (i..i + len).map(Bell::from_index).map(RegexElem::Bell);
 
-            // This unsafety is OK because all of the input patterns must be normalised because
-            // they contain only one wildcard
-            let descending_regex = unsafe {
-                // Descending runs (e.g. `*1234*`)
-                Self::from_elems_unchecked(
-                    once(RegexElem::Glob)
-                        .chain(run_iterator.clone())
-                        .chain(once(RegexElem::Glob)),
-                )
-            };
-            let ascending_regex = unsafe {
-                // Ascending runs (e.g. `*4321*`)
-                Self::from_elems_unchecked(
-                    once(RegexElem::Glob)
-                        .chain(run_iterator.clone().rev())
-                        .chain(once(RegexElem::Glob)),
-                )
-            };
+            // Descending runs (e.g. `*1234*`).  Note that these regexes aren't normalised if `len == 0`
+            let descending_regex = Self::from_elems(
+                once(RegexElem::Glob)
+                    .chain(run_iterator.clone())
+                    .chain(once(RegexElem::Glob)),
+            );
+            // Ascending runs (e.g. `*4321*`)
+            let ascending_regex = Self::from_elems(
+                once(RegexElem::Glob)
+                    .chain(run_iterator.clone().rev())
+                    .chain(once(RegexElem::Glob)),
+            );
 
             runs.push(descending_regex);
             runs.push(ascending_regex);
-- 
2.43.0


From c745a311b0f71108e56fc796adafaaa193c4adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 11/22] fix: Regex::num_matching_rows counts the rows which
 match

---
 src/music.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/music.rs b/src/music.rs
index 7d825d3..1b94bf3 100644
--- a/src/music.rs
+++ b/src/music.rs
@@ -285,9 +285,9 @@ impl Regex {
         // assign a bell to each of the 'x's, then (for each of these assignments) partition the
         // remaining bells between the '*'s.
         //
-        // The number of assignments of `n` bells into `i` 'x's is simply `n choose i`.  Now we're
-        // left with the remaining `n - i` bells to distribute into `j` '*'s.  This step is not as
-        // simple, but nonetheless there is a nice way to re-frame the problem: instead of
+        // The number of assignments of `n` bells into `i` 'x's is `n choose i` multiplied by the `i!`
+        // orders in which the chosen bells can be placed into the 'x's.  Now we're left with the
+        // remaining `n - i` bells to distribute into `j` '*'s.  This step is not as simple, but nonetheless there is a nice way to re-frame the problem: instead of
         // distributing the bells into `j` '*'s, we choose to split the bells up by inserting
         // `j - 1` identical barriers.
         //
@@ -306,27 +306,42 @@ impl Regex {
 
         // Compute the values of `n` (num_unfixed), `i` (num_wildcards) and `j` (num_globs) by
         // iterating over the regex and counting.
+        let mut is_bell_fixed = vec![false; stage.num_bells()];
         let mut num_unfixed = stage.num_bells(); // `n`, decremented for each fixed bell
         let mut num_wildcards = 0usize; // `i`
         let mut num_globs = 0usize; // `j`
         for e in &self.elems {
             match e {
-                RegexElem::Bell(_) => num_unfixed -= 1,
+                RegexElem::Bell(b) => {
+                    // Rows can't contain bells outside the stage, or the same bell more than once
+                    match is_bell_fixed.get_mut(b.index()) {
+                        Some(is_fixed) if !*is_fixed => *is_fixed = true,
+                        _ => return Some(0),
+                    }
+                    num_unfixed -= 1;
+                }
                 RegexElem::Any => num_wildcards += 1,
                 RegexElem::Glob => num_globs += 1,
             }
         }
 
-        let ways_to_fill_wildcards = utils::choice(num_unfixed, num_wildcards)?;
+        // If there aren't enough unfixed bells to fill the 'x's (or there are bells left over but no
+        // '*'s to put them into), then no rows match
+        if num_unfixed < num_wildcards || (num_globs == 0 && num_unfixed > num_wildcards) {
+            return Some(0);
+        }
+
+        let ways_to_fill_wildcards = utils::choice(num_unfixed, num_wildcards)?
+            .checked_mul(num_wildcards.checked_factorial()?)?;
 
         // TODO: Compute the fraction directly to limit potential for overflow
         let num_bells_in_globs = num_unfixed - num_wildcards;
         let ways_to_fill_globs_numerator =
-            (num_bells_in_globs + num_wildcards.saturating_sub(1)).checked_factorial()?;
+            (num_bells_in_globs + num_globs.saturating_sub(1)).checked_factorial()?;
         let ways_to_fill_globs_denominator = num_globs.saturating_sub(1).checked_factorial()?;
         let ways_to_fill_globs = ways_to_fill_globs_numerator / ways_to_fill_globs_denominator;
 
-        Some(ways_to_fill_wildcards * ways_to_fill_globs)
+        ways_to_fill_wildcards.checked_mul(ways_to_fill_globs)
     }
 
     /// Returns `true` if a given [`Row`] satisfies this `Regex`, and `false` otherwise.  If the
-- 
2.43.0


From 92ec237f6df22a7db4e541593e9949466713cffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 12/22] fix: run_len of no bells is 0

---
 src/utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 7c08383..86a0e61 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -9,8 +9,12 @@ use itertools::Itertools;
 /// Helper function to calculate the length of the longest run off the start of a given
 /// [`Iterator`]
 pub fn run_len(iter: impl IntoIterator<Item = Bell>) -> usize {
-    iter.into_iter()
-        .map(|b| b.index())
+    let mut iter = iter.into_iter().peekable();
+    // The `+ 1` below counts the first bell, so it doesn't apply if there aren't any bells
+    if iter.peek().is_none() {
+        return 0;
+    }
+    iter.map(|b| b.index())
         .tuple_windows::<(usize, usize)>()
         .take_while(|&(i1, i2)| (i1 as isize - i2 as isize).abs() == 1)
         .count()
-- 
2.43.0


From 9929eb0cb852eff3179b0908c61586c7fb0640bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:28 +0000
Subject: [PATCH 13/22] fix: Mask::as_row never returns an invalid row

---
 src/mask.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mask.rs b/src/mask.rs
index 5203a18..ec8f417 100644
--- a/src/mask.rs
+++ b/src/mask.rs
@@ -163,13 +163,13 @@ impl Mask {
 
     /// If this mask matches exactly one [`Row`], then return that [`Row`] (otherwise `None`).
     pub fn as_row(&self) -> Option<RowBuf> {
-        if self.bells.iter().all(Option::is_some) {
-            // This unsafety is OK because we assert an invariant that masks are subsets of rows
-            // (and thus a complete mask satisfies all the invariants of rows).
-            Some(unsafe { RowBuf::from_bell_iter_unchecked(self.bells.iter().map(|b| b.unwrap())) })
-        } else {
-            None
-        }
+        // We have to check that the bells form a valid row, because masks aren't checked for validity
+        // (so e.g. `Mask::parse("11")` doesn't match any rows).
+        self.bells
+            .iter()
+            .copied()
+            .collect::<Option<Vec<Bell>>>()
+            .and_then(|bells| RowBuf::from_vec(bells).ok())
     }
 
     /// Returns `true` if the set of [`Row`]s satisfying `self` is a subset of those satisfying
-- 
2.43.0


From 83f0bb1735bb17d22adc392609df8983f33e8075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 14/22] fix: masks with one unspecified place match exactly one
 row

---
 src/mask.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mask.rs b/src/mask.rs
index ec8f417..f4ab561 100644
--- a/src/mask.rs
+++ b/src/mask.rs
@@ -165,9 +165,14 @@ impl Mask {
     pub fn as_row(&self) -> Option<RowBuf> {
         // We have to check that the bells form a valid row, because masks aren't checked for validity
         // (so e.g. `Mask::parse("11")` doesn't match any rows).
-        self.bells
-            .iter()
-            .copied()
+        let mut bells = self.bells.clone();
+        // If only one place is unspecified, then it can only be filled by the one missing bell
+        if self.unspecified_places().count() == 1 {
+            let missing_bell = self.stage().bells().find(|b| self.place_of(*b).is_none());
+            *bells.iter_mut().find(|b| b.is_none()).unwrap() = missing_bell;
+        }
+        bells
+            .into_iter()
             .collect::<Option<Vec<Bell>>>()
             .and_then(|bells| RowBuf::from_vec(bells).ok())
     }
@@ -180,6 +185,11 @@ impl Mask {
             return false;
         }
 
+        // If `self` only matches one row, then it may not have to specify every bell required by `other`
+        if let Some(row) = self.as_row() {
+            return other.matches(&row);
+        }
+
         // Now check that every bell required by `other` is also required by `self`
         for (b1, b2) in self.bells.iter().zip_eq(&other.bells) {
             match (*b1, *b2) {
-- 
2.43.0


From 46faaf75c73e3e12c6bb5be9c10b5790979537e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 15/22] fix: SameStageVec's iterator implements size_hint, as
 ExactSizeIterator requires

---
 src/row/same_stage_vec.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index b6c14bc..7ef88ac 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -459,6 +459,11 @@ impl<'v> Iterator for Iter<'v> {
         Some(unsafe { Row::from_slice_unchecked(next_row) })
     }
 
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
+
     // PERF: Implement better routines for methods such as `nth`, etc. for which repeatedly calling
     // `next()` is unnecessarily slow.
 }
-- 
2.43.0


From a34c99f17dfb727d89699267f40a8916df08d91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 16/22] fix: generating the title of a method doesn't panic on
 unnamed stages

---
 src/method/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/method/mod.rs b/src/method/mod.rs
index e0a5fc8..5f22b09 100644
--- a/src/method/mod.rs
+++ b/src/method/mod.rs
@@ -215,8 +215,8 @@ pub fn generate_title(name: &str, class: FullClass, stage: Stage) -> String {
         // If the class made the string longer, we need another space before the stage
         s.push(' ');
     }
-    // Always push the stage
-    s.push_str(stage.name().expect("Stage was too big to generate a name"));
+    // Always push the stage (this also handles stages which are too big to have a name)
+    s.push_str(&stage.to_string());
 
     s
 }
-- 
2.43.0


From 0d36c980c9795d838fa6d0fd2336f36c8fd54f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 17/22] fix: asking a MethodLib for zero suggestions doesn't
 panic

---
 src/method_lib/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index 94bbce9..406608b 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -78,6 +78,11 @@ impl MethodLib {
         lower_case_title: &str,
         num_suggestions: usize,
     ) -> Vec<(&'lib str, usize)> {
+        // `Shortlist`s can't have a capacity of 0
+        if num_suggestions == 0 {
+            return Vec::new();
+        }
+
         /// A new-type over the suggestions, which is ordered by the edit distance
         #[derive(Debug, Clone, Copy)]
         // Forcing `repr` transparent will make sure that the memory layout is identical to `(&str,
-- 
2.43.0


From 09a954c274b5877bb29c58cff683a4173d84deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 18/22] fix: MethodLib::from_json returns an error for invalid
 class IDs and stages

---
 src/method_lib/lib_serde.rs | 19 +++++++++++--------
 src/method_lib/mod.rs       |  7 ++++++-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/method_lib/lib_serde.rs b/src/method_lib/lib_serde.rs
index b261e1d..399a1c4 100644
--- a/src/method_lib/lib_serde.rs
+++ b/src/method_lib/lib_serde.rs
@@ -1,6 +1,6 @@
 #![cfg(feature = "method_lib_serde")]
 
-use std::collections::HashMap;
+use std::{collections::HashMap, convert::TryFrom};
 
 use itertools::Itertools;
 use serde_crate::{Deserialize, Serialize};
@@ -78,18 +78,21 @@ impl From<&MethodLib> for MethodLibSerde {
     }
 }
 
-impl From<MethodLibSerde> for MethodLib {
-    fn from(m: MethodLibSerde) -> MethodLib {
+impl TryFrom<MethodLibSerde> for MethodLib {
+    type Error = String;
+
+    fn try_from(m: MethodLibSerde) -> Result<MethodLib, Self::Error> {
         let mut unpacked_method_map: LibraryMap = HashMap::with_capacity(25);
 
         for group in m.groups {
             // Unpack values from the group
-            let stage = Stage::new(group.stage);
+            let stage = Stage::try_from(group.stage).map_err(|e| e.to_string())?;
             let full_class = FullClass::new(
                 group.is_jump,
                 group.is_little,
                 group.is_differential,
-                from_class_id(group.class_id).expect("Unexpected type ID found"),
+                from_class_id(group.class_id)
+                    .ok_or_else(|| format!("Invalid Class ID {}", group.class_id))?,
             );
 
             // Get the group of methods that correspond to this group's stage
@@ -120,9 +123,9 @@ impl From<MethodLibSerde> for MethodLib {
             }
         }
 
-        MethodLib {
+        Ok(MethodLib {
             method_map: unpacked_method_map,
-        }
+        })
     }
 }
 
@@ -199,6 +202,6 @@ fn from_class_id(v: u8) -> Option<Class> {
         7 => Class::Alliance,
         8 => Class::Hybrid,
 
-        _ => panic!("Invalid Class ID {}", v),
+        _ => return None,
     })
 }
diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index 406608b..0d43d3f 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -1,7 +1,11 @@
+#[cfg(feature = "method_lib_serde")]
+use std::convert::TryFrom;
 use std::{cmp::Ordering, collections::HashMap};
 
 use edit_distance::edit_distance;
 use itertools::Itertools;
+#[cfg(feature = "method_lib_serde")]
+use serde_crate::de::Error as _;
 use shortlist::Shortlist;
 
 use crate::{method::class::FullClass, place_not::PnBlockParseError, Method, PnBlock, Stage};
@@ -171,7 +175,8 @@ impl MethodLib {
     /// Serialize this `MethodLib` from the compact JSON format generated by
     /// [`MethodLib::to_json`].
     pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {
-        serde_json::from_str::<lib_serde::MethodLibSerde>(json).map(Self::from)
+        serde_json::from_str::<lib_serde::MethodLibSerde>(json)
+            .and_then(|lib| Self::try_from(lib).map_err(serde_json::Error::custom))
     }
 }
 
-- 
2.43.0


From 543cbb84517e7851ef0dc29a73bad64f83b2d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 19/22] fix: Bells and Stages can be deserialized from their
 names in JSON

---
 src/bell.rs  | 7 ++++++-
 src/stage.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bell.rs b/src/bell.rs
index b732159..d8437de 100644
--- a/src/bell.rs
+++ b/src/bell.rs
@@ -389,7 +389,12 @@ impl<'de> Deserialize<'de> for Bell {
     where
         D: Deserializer<'de>,
     {
-        deserializer.deserialize_u64(BellVisitor)
+        if deserializer.is_human_readable() {
+            // Formats like JSON can tell us whether the value is a name or a number
+            deserializer.deserialize_any(BellVisitor)
+        } else {
+            deserializer.deserialize_u64(BellVisitor)
+        }
     }
 }
 
diff --git a/src/stage.rs b/src/stage.rs
index 4ef5c1e..a748bdf 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -457,7 +457,12 @@ impl<'de> Deserialize<'de> for Stage {
     where
         D: Deserializer<'de>,
     {
-        deserializer.deserialize_u64(StageVisitor)
+        if deserializer.is_human_readable() {
+            // Formats like JSON can tell us whether the value is a name or a number
+            deserializer.deserialize_any(StageVisitor)
+        } else {
+            deserializer.deserialize_u64(StageVisitor)
+        }
     }
 }
 
-- 
2.43.0


From 12352b5a90794695366c180d4520058d3a27a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 20/22] fix: asking a MethodLib for a huge number of
 suggestions doesn't abort

---
 src/method_lib/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index 0d43d3f..cc39a3b 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -82,6 +82,9 @@ impl MethodLib {
         lower_case_title: &str,
         num_suggestions: usize,
     ) -> Vec<(&'lib str, usize)> {
+        // There can't be more suggestions than methods, and `Shortlist`s allocate their full capacity
+        let num_methods = self.method_map.values().map(HashMap::len).sum();
+        let num_suggestions = num_suggestions.min(num_methods);
         // `Shortlist`s can't have a capacity of 0
         if num_suggestions == 0 {
             return Vec::new();
-- 
2.43.0


From b5b74124f0552d8b3afeeb8b7ecb90156ada26c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 21/22] fix: measure runs of bells with huge indices without
 overflow

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 86a0e61..ccaf615 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -16,7 +16,7 @@ pub fn run_len(iter: impl IntoIterator<Item = Bell>) -> usize {
     }
     iter.map(|b| b.index())
         .tuple_windows::<(usize, usize)>()
-        .take_while(|&(i1, i2)| (i1 as isize - i2 as isize).abs() == 1)
+        .take_while(|&(i1, i2)| i1.abs_diff(i2) == 1)
         .count()
         + 1
 }
-- 
2.43.0


From 0238aef55a5d093864e97004dc21ad866f7b71a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 22/22] fix: Bells and Stages can be deserialized from the keys
 of JSON maps

---
 src/bell.rs  | 21 +++++++++++++--------
 src/stage.rs |  6 ++++++
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/bell.rs b/src/bell.rs
index d8437de..61338b2 100644
--- a/src/bell.rs
+++ b/src/bell.rs
@@ -360,14 +360,19 @@ impl<'de> Visitor<'de> for BellVisitor {
     where
         E: Error,
     {
-        if v.len() != 1 {
-            return Err(E::custom(format!("'{}' is not a bell name", v)));
-        }
-
-        v.chars()
-            .next()
-            .and_then(Bell::from_name)
-            .ok_or(E::custom(format!("'{}' is not a bell name", v)))
+        let mut chars = v.chars();
+        let named_bell = match (chars.next(), chars.next()) {
+            (Some(c), None) => Bell::from_name(c),
+            _ => None,
+        };
+        // Where everything is text (e.g. the keys of a JSON map), numbers are given as text too
+        let numbered_bell = || {
+            let number = v.parse().ok().filter(|n: &usize| n.to_string() == v)?;
+            Bell::from_number(number)
+        };
+        named_bell
+            .or_else(numbered_bell)
+            .ok_or_else(|| E::custom(format!("'{}' is not a bell name", v)))
     }
 }
 
diff --git a/src/stage.rs b/src/stage.rs
index a748bdf..549ff91 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -435,7 +435,13 @@ impl<'de> Visitor<'de> for StageVisitor {
         E: Error,
     {
         let lower_str = v.to_lowercase();
+        // Where everything is text (e.g. the keys of a JSON map), numbers are given as text too
+        let numbered_stage = || {
+            let num_bells = v.parse().ok().filter(|n: &usize| n.to_string() == v)?;
+            Stage::try_from(num_bells).ok()
+        };
         Stage::from_lower_case_name(&lower_str)
+            .or_else(numbered_stage)
             .ok_or_else(|| E::custom(format!("'{}' is not a stage name", v)))
     }
 }
-- 
2.43.0

