From 4104da067505d1626d86485526bbdb7354eb9ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 01/19] fix: truncate scores to four bits when entries are
 loaded

A score above 15 spilled into the bits of the relevance, and changed it.
---
 rust-src/src/gridstore/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 545ecda..8b43441 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -22,7 +22,7 @@ pub struct GridStoreBuilder {
 /// Extends a BuildEntry with the given values.
 fn extend_entries(builder_entry: &mut BuilderEntry, values: Vec<GridEntry>) -> () {
     for (rs, rs_values) in somewhat_eager_groupby(values.into_iter(), |value| {
-        (relev_float_to_int(value.relev) << 4) | value.score
+        (relev_float_to_int(value.relev) << 4) | (value.score & 15)
     }) {
         let rs_entry =
             builder_entry.entry(rs).or_insert_with(|| HashMap::with_capacity(rs_values.len()));
@@ -133,7 +133,7 @@ impl GridStoreBuilder {
         let to_append =
             self.data.entry(key.to_owned()).or_insert_with(|| BuilderEntry::with_capacity(1));
 
-        let relev_score = (relev_float_to_int(relev) << 4) | score;
+        let relev_score = (relev_float_to_int(relev) << 4) | (score & 15);
         let id_hash = smallvec![(id << 8) | (source_phrase_hash as u32)];
         let relevance_score_entry =
             to_append.entry(relev_score).or_insert_with(|| HashMap::with_capacity(coords.len()));
-- 
2.43.0


From 1890339db57ca9e06a6f2b8eb83a19555ecb4243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 02/19] fix: keep phrases below the first bin boundary out of
 the first bin

They were found by searches for the range of the first bin. A phrase with
the greatest possible id made finish() loop forever.
---
 rust-src/src/gridstore/builder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 8b43441..2b0aeed 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -191,11 +191,10 @@ impl GridStoreBuilder {
 
         let mut bin_seq = self.bin_boundaries.iter().cloned().peekable();
         let mut current_bin = None;
-        let mut next_boundary = 0u32;
         let grouped = somewhat_eager_groupby(self.data.into_iter(), |(key, _value)| {
-            while key.phrase_id >= next_boundary {
+            // phrases below the first boundary are in no bin
+            while bin_seq.peek().map_or(false, |boundary| key.phrase_id >= *boundary) {
                 current_bin = bin_seq.next();
-                next_boundary = *(bin_seq.peek().unwrap_or(&std::u32::MAX));
             }
 
             current_bin
-- 
2.43.0


From d2a0c5dd820daa618335d75c6ae8644dd0ccc153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 03/19] fix: find the phrase with the greatest possible id

An exact search went through the range up to the next id, which overflowed.
---
 rust-src/src/gridstore/store.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rust-src/src/gridstore/store.rs b/rust-src/src/gridstore/store.rs
index 648a933..404b4f6 100644
--- a/rust-src/src/gridstore/store.rs
+++ b/rust-src/src/gridstore/store.rs
@@ -321,28 +321,26 @@ impl GridStore {
         match_opts: &MatchOpts,
         max_values: usize,
     ) -> Result<impl Iterator<Item = MatchEntry>, Error> {
-        let (fetch_start, fetch_end, fetch_type_marker) = match match_key.match_phrase {
-            MatchPhrase::Exact(id) => (id, id + 1, TypeMarker::SinglePhrase),
+        let fetch_type_marker = match match_key.match_phrase {
+            MatchPhrase::Exact(_) => TypeMarker::SinglePhrase,
             MatchPhrase::Range { start, end } => {
                 if self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end) {
-                    (start, end, TypeMarker::PrefixBin)
+                    TypeMarker::PrefixBin
                 } else {
-                    (start, end, TypeMarker::SinglePhrase)
+                    TypeMarker::SinglePhrase
                 }
             }
         };
 
         let match_opts = match_opts.clone();
 
-        let mut range_key = match_key.clone();
-        range_key.match_phrase = MatchPhrase::Range { start: fetch_start, end: fetch_end };
         let mut db_key: Vec<u8> = Vec::new();
-        range_key.write_start_to(fetch_type_marker, &mut db_key)?;
+        match_key.write_start_to(fetch_type_marker, &mut db_key)?;
 
         let db_iter = self
             .db
             .iterator(IteratorMode::From(&db_key, Direction::Forward))
-            .take_while(|(k, _)| range_key.matches_key(fetch_type_marker, k).unwrap());
+            .take_while(|(k, _)| match_key.matches_key(fetch_type_marker, k).unwrap());
 
         let mut pri_queue = MinMaxHeap::<QueueElement<_>>::new();
 
-- 
2.43.0


From d62cdbe0f77200bdeec1435ebd4126ea95dba048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:40 +0000
Subject: [PATCH 04/19] fix: adjust match options between zooms 0 and 16

---
 rust-src/src/gridstore/common.rs  | 15 ++++++++++-----
 rust-src/src/gridstore/spatial.rs | 22 +++++++++++-----------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/rust-src/src/gridstore/common.rs b/rust-src/src/gridstore/common.rs
index 5d3691d..2796f27 100644
--- a/rust-src/src/gridstore/common.rs
+++ b/rust-src/src/gridstore/common.rs
@@ -132,18 +132,23 @@ impl MatchOpts {
                         // If this is a zoom out, divide by 2 for every level of zooming out.
                         let zoom_levels = self.zoom - target_z;
                         // Shifting to the right by a number is the same as dividing by 2 that number of times.
-                        Some([x >> zoom_levels, y >> zoom_levels])
+                        // This is done at u32 because between z16 and z0 it shifts by all 16 bits.
+                        Some([
+                            ((*x as u32) >> zoom_levels) as u16,
+                            ((*y as u32) >> zoom_levels) as u16,
+                        ])
                     } else {
                         // If this is a zoom in, choose the closest to the middle of the possible tiles at the higher zoom level.
                         // The scale of the coordinates for zooming in is 2^(difference in zs).
-                        let scale_multiplier = 1 << (target_z - self.zoom);
+                        // This is done at u32 because between z0 and z16 it doesn't fit in 16 bits.
+                        let scale_multiplier = 1u32 << (target_z - self.zoom);
                         // Pick a coordinate halfway between the possible higher zoom tiles,
                         // subtracting one to pick the one on the top left of the four middle tiles for consistency.
                         let mid_coord_adjuster = scale_multiplier / 2 - 1;
-                        let adjusted_x = x * scale_multiplier + mid_coord_adjuster;
-                        let adjusted_y = y * scale_multiplier + mid_coord_adjuster;
+                        let adjusted_x = *x as u32 * scale_multiplier + mid_coord_adjuster;
+                        let adjusted_y = *y as u32 * scale_multiplier + mid_coord_adjuster;
 
-                        Some([adjusted_x, adjusted_y])
+                        Some([adjusted_x as u16, adjusted_y as u16])
                     }
                 }
                 None => None,
diff --git a/rust-src/src/gridstore/spatial.rs b/rust-src/src/gridstore/spatial.rs
index 38034b5..f3956dd 100644
--- a/rust-src/src/gridstore/spatial.rs
+++ b/rust-src/src/gridstore/spatial.rs
@@ -604,26 +604,26 @@ pub fn adjust_bbox_zoom(bbox: [u16; 4], source_z: u16, target_z: u16) -> [u16; 4
         let zoom_levels = source_z - target_z;
         // If this is a zoom out, divide each coordinate by 2^(number of zoom levels).
         // This is the same as shifting bits to the right by the number of zoom levels.
+        // (at u32, because between z16 and z0 it shifts by all 16 bits)
         [
-            bbox[0] >> zoom_levels,
-            bbox[1] >> zoom_levels,
-            bbox[2] >> zoom_levels,
-            bbox[3] >> zoom_levels,
+            ((bbox[0] as u32) >> zoom_levels) as u16,
+            ((bbox[1] as u32) >> zoom_levels) as u16,
+            ((bbox[2] as u32) >> zoom_levels) as u16,
+            ((bbox[3] as u32) >> zoom_levels) as u16,
         ]
     } else {
         // If this is a zoom in
-        let scale_multiplier = 1 << (target_z - source_z);
+        // (at u32, because between z0 and z16 it doesn't fit in 16 bits)
+        let scale_multiplier = 1u32 << (target_z - source_z);
 
         // Scale the top left (min x and y) tile coordinates by 2^(zoom diff).
         // Scale the bottom right (max x and y) tile coordinates by 2^(zoom diff),
         // and add the new number of tiles (-1) to get the outer edge of possible tiles.
-        // We subtract 1 from the scale_multiplier before adding to prevent an integer overflow
-        // given that we're using a 16bit integer
         [
-            bbox[0] * scale_multiplier,
-            bbox[1] * scale_multiplier,
-            bbox[2] * scale_multiplier + (scale_multiplier - 1),
-            bbox[3] * scale_multiplier + (scale_multiplier - 1),
+            (bbox[0] as u32 * scale_multiplier) as u16,
+            (bbox[1] as u32 * scale_multiplier) as u16,
+            (bbox[2] as u32 * scale_multiplier + (scale_multiplier - 1)) as u16,
+            (bbox[3] as u32 * scale_multiplier + (scale_multiplier - 1)) as u16,
         ]
     }
 }
-- 
2.43.0


From fc1f89dbd8c475fa5250a2c922b07d85995f8f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:50 +0000
Subject: [PATCH 05/19] fix: keep the nearby-only box from overflowing at the
 far edges of zoom 16

---
 rust-src/src/gridstore/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust-src/src/gridstore/common.rs b/rust-src/src/gridstore/common.rs
index 2796f27..3df2e2f 100644
--- a/rust-src/src/gridstore/common.rs
+++ b/rust-src/src/gridstore/common.rs
@@ -174,8 +174,8 @@ impl MatchOpts {
         let mut new_box: [u16; 4] = [
             if prox[0] < padding { 0 } else { prox[0] - padding }, // prevent overflows because this is unsigned
             if prox[1] < padding { 0 } else { prox[1] - padding }, // ditto
-            prox[0] + padding,
-            prox[1] + padding,
+            prox[0].saturating_add(padding), // ditto, at the other edge of z16
+            prox[1].saturating_add(padding), // ditto
         ];
 
         if let Some(old_box) = constrained.bbox {
-- 
2.43.0


From 611fd7a3ec9b4285f2b60a742c37c5cc8466701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:44 +0000
Subject: [PATCH 06/19] fix: keep phrasematches off a stack that excludes them
 further down

---
 rust-src/src/gridstore/stackable.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust-src/src/gridstore/stackable.rs b/rust-src/src/gridstore/stackable.rs
index ae87be8..06c31ce 100644
--- a/rust-src/src/gridstore/stackable.rs
+++ b/rust-src/src/gridstore/stackable.rs
@@ -226,6 +226,7 @@ fn binned_stackable<'b, 'a: 'b, T: Borrow<GridStore> + Clone + Debug>(
         for phrasematch in phrasematch_group.phrasematches.iter() {
             if (node.mask & phrasematch.mask) == 0
                 && phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false
+                && node.bmask.contains(phrasematch.idx as usize) == false
             {
                 let target_relev = relev_so_far + phrasematch.weight;
                 let max_possible_relev = target_relev + *phrasematch_group.max_relev_after_this;
-- 
2.43.0


From 2474c8edf27cc13a6d267a7de0d848087d14f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:57 +0000
Subject: [PATCH 07/19] fix: keep all match keys when phrasematches are
 collapsed

---
 rust-src/src/gridstore/coalesce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 956f3de..4ce2642 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -963,7 +963,7 @@ pub fn collapse_phrasematches<T: Borrow<GridStore> + Clone + Debug>(
                 entry.insert(phrasematch);
             }
             IndexMapEntry::Occupied(mut grouped_phrasematch) => {
-                grouped_phrasematch.get_mut().match_keys.push(phrasematch.match_keys[0].clone());
+                grouped_phrasematch.get_mut().match_keys.extend(phrasematch.match_keys);
             }
         }
     }
-- 
2.43.0


From 889e8cdfee935441a4e844d5ac03d012a5795d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 08/19] fix: count features, not changes of feature, while
 coalescing one phrasematch

Tiles of a few features that take turns in the stream used up the limit
of features, and the features that came after them were lost.
---
 rust-src/src/gridstore/coalesce.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 4ce2642..90f58ca 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -137,12 +137,10 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
             }
             Entry::Vacant(entry) => {
                 entry.insert(coalesce_entry);
+                feature_count += 1;
             }
         }
 
-        if previous_id != current_id {
-            feature_count += 1;
-        }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
             break;
         }
@@ -922,12 +920,10 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
             }
             Entry::Vacant(entry) => {
                 entry.insert(coalesce_entry);
+                feature_count += 1;
             }
         }
 
-        if previous_id != current_id {
-            feature_count += 1;
-        }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
             break;
         }
-- 
2.43.0


From b692e6a6a452a6b57dc07ae1a7d8605e427bd8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 09/19] fix: do not skip feature 0 when it comes first and has
 no score

The first match was compared with a previous feature 0 of score-distance
0 that there had not been.
---
 rust-src/src/gridstore/coalesce.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 90f58ca..4466360 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -88,7 +88,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
     let mut max_relevance: f64 = 0.;
     let mut previous_id: u32 = 0;
     let mut previous_relevance: f64 = 0.;
-    let mut previous_scoredist: f64 = 0.;
+    let mut previous_scoredist: f64 = std::f64::MIN;
     let mut min_scoredist = std::f64::MAX;
     let mut feature_count: usize = 0;
 
@@ -871,7 +871,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
     let mut max_relevance: f64 = 0.;
     let mut previous_id: u32 = 0;
     let mut previous_relevance: f64 = 0.;
-    let mut previous_scoredist: f64 = 0.;
+    let mut previous_scoredist: f64 = std::f64::MIN;
     let mut min_scoredist = std::f64::MAX;
     let mut feature_count: usize = 0;
 
-- 
2.43.0


From ba29f74cd3913fe44493b9669c3fcf14545f3acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 10/19] fix: stack across 16 zooms

A factor of 2^16 did not fit, so nothing was found on zoom 0 for tiles on zoom 16.
---
 rust-src/src/gridstore/coalesce.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 4466360..72f6400 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -228,11 +228,12 @@ fn coalesce_multi<T: Borrow<GridStore> + Clone>(
             // See which other zooms are compatible.
             // These should all be lower zooms, so "zoom out" by dividing by 2^(difference in zooms)
             for other_zoom in compatible_zooms.iter() {
-                let scale_factor: u16 = 1 << (subquery.store.borrow().zoom - *other_zoom);
+                // as u32, since zooms 0 and 16 are 16 zooms apart
+                let scale_factor: u32 = 1 << (subquery.store.borrow().zoom - *other_zoom);
                 let other_zxy = (
                     *other_zoom,
-                    entries[0].grid_entry.x / scale_factor,
-                    entries[0].grid_entry.y / scale_factor,
+                    (entries[0].grid_entry.x as u32 / scale_factor) as u16,
+                    (entries[0].grid_entry.y as u32 / scale_factor) as u16,
                 );
 
                 if let Some(already_coalesced) = coalesced.get(&other_zxy) {
@@ -700,7 +701,8 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
 
                     let mut phrasematch_contexts: Vec<CoalesceContext> = Vec::new();
 
-                    let scale_factor: u16 = 1 << (subquery.store.borrow().zoom - step.prev_zoom);
+                    // as u32, since zooms 0 and 16 are 16 zooms apart
+                    let scale_factor: u32 = 1 << (subquery.store.borrow().zoom - step.prev_zoom);
 
                     let mut state_contexts: Vec<CoalesceContext> = Vec::new();
 
@@ -720,8 +722,8 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
                             // we're stacking on top of something that was already there
                             for grid in grids.iter() {
                                 let prev_zoom_xy = (
-                                    grid.grid_entry.x / scale_factor,
-                                    grid.grid_entry.y / scale_factor,
+                                    (grid.grid_entry.x as u32 / scale_factor) as u16,
+                                    (grid.grid_entry.y as u32 / scale_factor) as u16,
                                 );
 
                                 let entry = grid_to_coalesce_entry(
-- 
2.43.0


From 6e7c355d2976424294a1fabc16ad4f78ca60f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 11/19] fix: take a more relevant match even if it follows a
 worse one of its feature

The penalty for another language is not taken into account in the order of the
matches, so one that is near can follow one of the same feature that is far away,
penalized, and has the better score-distance.  It was skipped then, though it may be
better than the match that represents the feature.
---
 rust-src/src/gridstore/coalesce.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 72f6400..9f3f961 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -98,8 +98,10 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         let coalesce_entry = grid_to_coalesce_entry(&grid, subquery, match_opts, 0);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
+        // (unless it's more relevant, as it can be when the last one is in another language)
         if previous_id == coalesce_entry.grid_entry.id
             && coalesce_entry.scoredist <= previous_scoredist
+            && coalesce_entry.grid_entry.relev <= previous_relevance
         {
             continue;
         }
@@ -883,8 +885,10 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         let coalesce_entry = grid_to_coalesce_entry(&grid, &subquery, match_opts, phrasematch_id);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
+        // (unless it's more relevant, as it can be when the last one is in another language)
         if previous_id == coalesce_entry.grid_entry.id
             && coalesce_entry.scoredist <= previous_scoredist
+            && coalesce_entry.grid_entry.relev <= previous_relevance
         {
             continue;
         }
-- 
2.43.0


From 66742e52d6dea83ab0912a4974a83d0b92d9b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 12/19] fix: go on past matches that only their language puts
 0.25 below the best

A match in another language that is far away is penalized, but is not sorted by its
penalty: matches behind it may be nearby, be less than 0.25 below the best, and lead
to features that were missing.
---
 rust-src/src/gridstore/coalesce.rs | 24 ++++++++++++++++++++++--
 rust-src/src/gridstore/common.rs   |  2 ++
 rust-src/src/gridstore/store.rs    |  2 +-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 9f3f961..e386c74 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -117,7 +117,17 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         }
 
         if max_relevance - coalesce_entry.grid_entry.relev >= 0.25 {
-            break;
+            // Matches are not sorted by the penalty for their language, so unless this one would
+            // be too irrelevant without it, others behind it may be relevant enough
+            let unpenalized = if grid.matches_language {
+                coalesce_entry.grid_entry.relev
+            } else {
+                coalesce_entry.grid_entry.relev / LANGUAGE_PENALTY
+            };
+            if max_relevance - unpenalized >= 0.25 {
+                break;
+            }
+            continue;
         }
         if coalesce_entry.grid_entry.relev > max_relevance {
             max_relevance = coalesce_entry.grid_entry.relev;
@@ -904,7 +914,17 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         }
 
         if max_relevance - coalesce_entry.grid_entry.relev >= 0.25 {
-            break;
+            // Matches are not sorted by the penalty for their language, so unless this one would
+            // be too irrelevant without it, others behind it may be relevant enough
+            let unpenalized = if grid.matches_language {
+                coalesce_entry.grid_entry.relev
+            } else {
+                coalesce_entry.grid_entry.relev / LANGUAGE_PENALTY
+            };
+            if max_relevance - unpenalized >= 0.25 {
+                break;
+            }
+            continue;
         }
         if coalesce_entry.grid_entry.relev > max_relevance {
             max_relevance = coalesce_entry.grid_entry.relev;
diff --git a/rust-src/src/gridstore/common.rs b/rust-src/src/gridstore/common.rs
index 3df2e2f..dfc6cd4 100644
--- a/rust-src/src/gridstore/common.rs
+++ b/rust-src/src/gridstore/common.rs
@@ -379,6 +379,8 @@ pub const MAX_CONTEXTS: usize = 40;
 // carmen-cache, but hopefully we're sorting more intelligently on the way in here so
 // shouldn't need as many records. Still, we should limit it somehow.
 pub const MAX_GRIDS_PER_PHRASE: usize = 100_000;
+// What the relevance of a match is multiplied by if it is neither in a requested language nor nearby
+pub const LANGUAGE_PENALTY: f64 = 0.96;
 
 #[derive(Serialize, Deserialize, Debug, PartialOrd, PartialEq, Clone)]
 pub struct GridEntry {
diff --git a/rust-src/src/gridstore/store.rs b/rust-src/src/gridstore/store.rs
index 404b4f6..9a8946b 100644
--- a/rust-src/src/gridstore/store.rs
+++ b/rust-src/src/gridstore/store.rs
@@ -195,7 +195,7 @@ fn decode_matching_value<T: AsRef<[u8]>>(
                                     * (if matches_language || within_radius {
                                         1f64
                                     } else {
-                                        0.96f64
+                                        LANGUAGE_PENALTY
                                     }),
                                 score,
                                 x,
-- 
2.43.0


From 10228a29e07792e82a201c73b71ae011da5d4656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:05 +0000
Subject: [PATCH 13/19] fix: count towards the quotas of scans only those that
 are done, and once

---
 rust-src/src/gridstore/coalesce.rs | 90 ++++++++++++++++--------------
 1 file changed, 47 insertions(+), 43 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index e386c74..d9ff9cb 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -535,65 +535,69 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
                             MatchPhrase::Range { start, end } => end - start > 1,
                         };
 
-                        if is_range == true && subquery.mask.count_ones() == 1 {
-                            if subquery.store.borrow().might_be_slow()
-                                && step.node.is_leaf()
-                                && step.possible_relev
-                                    <= 0.75
-                                        * contexts
-                                            .peek_max()
-                                            .map_or(0.0, |coalesce_context| coalesce_context.relev)
-                            {
-                                // this is a potentially-slow leaf subquery in a high-zoom index
-                                // that isn't likely to make our best results better, so skip it
-                                continue;
-                            } else if !unique_keys.contains(&(key_group.id, is_single)) {
+                        let is_one_word_range = is_range && subquery.mask.count_ones() == 1;
+                        let might_be_slow = subquery.store.borrow().might_be_slow();
+
+                        if is_one_word_range
+                            && might_be_slow
+                            && step.node.is_leaf()
+                            && step.possible_relev
+                                <= 0.75
+                                    * contexts
+                                        .peek_max()
+                                        .map_or(0.0, |coalesce_context| coalesce_context.relev)
+                        {
+                            // this is a potentially-slow leaf subquery in a high-zoom index
+                            // that isn't likely to make our best results better, so skip it
+                            continue;
+                        }
+
+                        if !unique_keys.contains(&(key_group.id, is_single)) {
+                            // the quotas this fetch counts towards
+                            let mut quotas: Vec<(&mut usize, usize)> = Vec::new();
+
+                            if is_one_word_range {
                                 if key_group.phrase_length == 1 {
                                     // even though this isn't a leaf node or a high-zoom index, it's a single-letter query,
                                     // which could be *really* slow and is pretty low-information, so set a quota to constrain
                                     // the total number of these we can end up fetching
-                                    if one_letter_range_count < ONE_LETTER_RANGE_QUOTA {
-                                        one_letter_range_count += 1;
-                                    } else {
-                                        continue;
-                                    }
+                                    quotas.push((
+                                        &mut one_letter_range_count,
+                                        ONE_LETTER_RANGE_QUOTA,
+                                    ));
                                 }
 
                                 // limit the number of single-word scans of high-zoom indexes (but exempt numerical autocomplete)
-                                if subquery.store.borrow().might_be_slow() && !key_group.nearby_only
-                                {
-                                    if one_word_high_zoom_range_count
-                                        < ONE_WORD_HIGH_ZOOM_RANGE_QUOTA
-                                    {
-                                        one_word_high_zoom_range_count += 1;
-                                    } else {
-                                        continue;
-                                    }
+                                if might_be_slow && !key_group.nearby_only {
+                                    quotas.push((
+                                        &mut one_word_high_zoom_range_count,
+                                        ONE_WORD_HIGH_ZOOM_RANGE_QUOTA,
+                                    ));
                                 }
 
-                                if one_word_range_count < ONE_WORD_RANGE_QUOTA {
-                                    one_word_range_count += 1;
-                                } else {
-                                    continue;
-                                }
+                                quotas.push((&mut one_word_range_count, ONE_WORD_RANGE_QUOTA));
                             }
-                        }
 
-                        // quotas for high-zoom indexes other than single-word ones
-                        if subquery.store.borrow().might_be_slow() && !key_group.nearby_only {
-                            if is_range {
-                                if all_high_zoom_range_count < ALL_HIGH_ZOOM_RANGE_QUOTA {
-                                    all_high_zoom_range_count += 1;
-                                } else {
-                                    continue;
+                            // quotas for high-zoom indexes other than single-word ones
+                            if might_be_slow && !key_group.nearby_only {
+                                if is_range {
+                                    quotas.push((
+                                        &mut all_high_zoom_range_count,
+                                        ALL_HIGH_ZOOM_RANGE_QUOTA,
+                                    ));
                                 }
+
+                                quotas.push((&mut all_high_zoom_count, ALL_HIGH_ZOOM_QUOTA));
                             }
 
-                            if all_high_zoom_count < ALL_HIGH_ZOOM_QUOTA {
-                                all_high_zoom_count += 1;
-                            } else {
+                            // only count fetches that we do: one that some quota turns down mustn't use
+                            // up the others
+                            if quotas.iter().any(|(count, quota)| **count >= *quota) {
                                 continue;
                             }
+                            for (count, _) in quotas {
+                                *count += 1;
+                            }
                         }
 
                         if unique_keys.insert((key_group.id, is_single)) {
-- 
2.43.0


From e815599846dd3ae00298e1b6a1fede351d513055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 14/19] fix: leave the builder as it was when a renumbering is
 rejected

---
 rust-src/src/gridstore/builder.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 2b0aeed..4cf3bb2 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -1,5 +1,5 @@
 use std::collections::hash_map::Entry as HmEntry;
-use std::collections::{btree_map::Entry, BTreeMap, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::path::{Path, PathBuf};
 
 use failure::{Error, Fail};
@@ -153,24 +153,23 @@ impl GridStoreBuilder {
     /// In situations under which data has been inserted using temporary phrase IDs, renumber
     /// the data in the index to use final phrase IDs, given a temporary-to-final-ID mapping
     pub fn renumber(&mut self, tmp_phrase_ids_to_ids: &[u32]) -> Result<(), Error> {
-        let mut old_data: BTreeMap<GridKey, BuilderEntry> = BTreeMap::new();
-        std::mem::swap(&mut old_data, &mut self.data);
-
-        for (key, value) in old_data.into_iter() {
+        // check the whole mapping first, so that one that is rejected leaves the data as it was
+        let mut new_keys: BTreeSet<GridKey> = BTreeSet::new();
+        for key in self.data.keys() {
             let new_phrase_id = tmp_phrase_ids_to_ids
                 .get(key.phrase_id as usize)
                 .ok_or_else(|| BuildError::OutOfBoundsRenumberEntry { tmp_id: key.phrase_id })?;
-            let new_key = GridKey { phrase_id: *new_phrase_id, ..key };
-            match self.data.entry(new_key) {
-                Entry::Vacant(v) => {
-                    v.insert(value);
-                }
-                Entry::Occupied(_) => {
-                    return Err(Error::from(BuildError::DuplicateRenumberEntry {
-                        target_id: *new_phrase_id,
-                    }))
-                }
-            };
+            if !new_keys.insert(GridKey { phrase_id: *new_phrase_id, ..*key }) {
+                return Err(Error::from(BuildError::DuplicateRenumberEntry {
+                    target_id: *new_phrase_id,
+                }));
+            }
+        }
+
+        let old_data = std::mem::replace(&mut self.data, BTreeMap::new());
+        for (key, value) in old_data.into_iter() {
+            let new_phrase_id = tmp_phrase_ids_to_ids[key.phrase_id as usize];
+            self.data.insert(GridKey { phrase_id: new_phrase_id, ..key }, value);
         }
         Ok(())
     }
-- 
2.43.0


From 3631dbf3a0275490af82f10dafbe9d13e3a9cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 15/19] fix: go on with what comes of a chunk's steps when
 nothing else in the queue can beat the results

---
 rust-src/src/gridstore/coalesce.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index d9ff9cb..ea414be 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -488,8 +488,7 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
         }
     }
 
-    let mut complete = false;
-    while steps.len() > 0 && !complete {
+    while steps.len() > 0 {
         // as long as there's still work to do, we'll execute it a chunk at a time, peeling off
         // the next few best nodes, and executing on them in parallel
         let mut step_chunk = Vec::with_capacity(COALESCE_CHUNK_SIZE);
@@ -507,7 +506,9 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
                     if step.node.max_relev
                         <= contexts.peek_min().expect("contexts can't be empty").relev
                     {
-                        complete = true;
+                        // nor does anything else in the queue, but what will come of the steps that are
+                        // already in this chunk might
+                        steps.clear();
                         break;
                     }
                 }
-- 
2.43.0


From 0e46447d55e344d0b9b11d8723628f1fa37bc579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 16/19] fix: find what bins hold whatever order their
 boundaries are loaded in

---
 rust-src/src/gridstore/builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 4cf3bb2..c1f6e8f 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -174,7 +174,9 @@ impl GridStoreBuilder {
         Ok(())
     }
 
-    pub fn load_bin_boundaries(&mut self, bin_boundaries: Vec<u32>) -> Result<(), Error> {
+    pub fn load_bin_boundaries(&mut self, mut bin_boundaries: Vec<u32>) -> Result<(), Error> {
+        // phrases are assigned to bins in one pass over both
+        bin_boundaries.sort();
         self.bin_boundaries = bin_boundaries;
         Ok(())
     }
-- 
2.43.0


From c245bf9dcf3c5d9239126305b273ac50f3eece6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 17/19] fix: a search limited to no values finds none

---
 rust-src/src/gridstore/store.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rust-src/src/gridstore/store.rs b/rust-src/src/gridstore/store.rs
index 9a8946b..4587a34 100644
--- a/rust-src/src/gridstore/store.rs
+++ b/rust-src/src/gridstore/store.rs
@@ -351,11 +351,12 @@ impl GridStore {
             if let Some(next_entry) = entry_iter.next() {
                 let queue_element = QueueElement { next_entry, entry_iter };
                 if pri_queue.len() >= max_values {
-                    let worst_entry = pri_queue.peek_min().unwrap();
-                    if worst_entry >= &queue_element {
-                        continue;
-                    } else {
-                        pri_queue.replace_min(queue_element);
+                    match pri_queue.peek_min() {
+                        Some(worst_entry) if worst_entry < &queue_element => {
+                            pri_queue.replace_min(queue_element);
+                        }
+                        // no better than what there is, or there is no room at all
+                        _ => continue,
                     }
                 } else {
                     pri_queue.push(queue_element);
-- 
2.43.0


From c400809025eb0384b0efed3f47c6246d92c8135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 18/19] fix: find nothing in an empty box instead of failing an
 assertion

---
 rust-src/src/gridstore/spatial.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/spatial.rs b/rust-src/src/gridstore/spatial.rs
index f3956dd..de2e0a7 100644
--- a/rust-src/src/gridstore/spatial.rs
+++ b/rust-src/src/gridstore/spatial.rs
@@ -12,9 +12,12 @@ use crate::gridstore::gridstore_format;
 /// Returns (Some(min,max)) if the Coord Vector morton order range overlaps with the bounding box,
 /// [`None`] if the Coord Vector morton order range does not overlaps with the bounding box
 pub fn bbox_range<'a>(coords: UniformVec<'a, Coord>, bbox: [u16; 4]) -> Option<(u32, u32)> {
+    if bbox[0] > bbox[2] || bbox[1] > bbox[3] {
+        // there is nothing in an empty box, as the nearby-only one of a distant point can be
+        return None;
+    }
     let min = interleave_morton(bbox[0], bbox[1]);
     let max = interleave_morton(bbox[2], bbox[3]);
-    debug_assert!(min <= max, "Invalid bounding box");
 
     let len = coords.len();
     if len == 0 {
-- 
2.43.0


From c1db0bfeec891b4bb1d04efc91d9538a8be59483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:02 +0000
Subject: [PATCH 19/19] fix: answer coalesce() of no phrasematches instead of
 panicking

---
 rust-src/src/gridstore/coalesce.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index ea414be..a199aff 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -25,10 +25,10 @@ pub fn coalesce<T: Borrow<GridStore> + Clone + Debug>(
     stack: Vec<PhrasematchSubquery<T>>,
     match_opts: &MatchOpts,
 ) -> Result<Vec<CoalesceContext>, Error> {
-    let contexts = if stack.len() <= 1 {
-        coalesce_single(&stack[0], match_opts)?
-    } else {
-        coalesce_multi(stack, match_opts)?
+    let contexts = match stack.len() {
+        0 => Vec::new(),
+        1 => coalesce_single(&stack[0], match_opts)?,
+        _ => coalesce_multi(stack, match_opts)?,
     };
 
     let mut out = Vec::with_capacity(MAX_CONTEXTS);
-- 
2.43.0

