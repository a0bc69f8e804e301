From 8052f8e12dcdfff0801e169b702e0a685aab769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:36 +0000
Subject: [PATCH 01/30] fix: keep courses with some free starting lessons
 reachable

A course was dropped from the dependency sinks as soon as one of its starting lessons
depended on another unit. Its other starting lessons were then never scheduled.
---
 src/graph.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 562b053..88bf4df 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -611,18 +611,20 @@ impl UnitGraph for InMemoryUnitGraph {
                 .collect();
 
             // Before updating the map, the dependency sinks need to be updated as well. The course
-            // is no longer a dependency sink if any of its starting lessons have dependencies to
-            // other valid units in the graph.
+            // is no longer a dependency sink if all of its starting lessons have dependencies to
+            // other valid units in the graph. If only some of them do, the course must remain a
+            // sink because its other starting lessons cannot be reached from any other unit.
             if self.dependency_sinks.contains(course_id) {
-                let has_starting_dependencies = starting_lessons.iter().any(|lesson_id| {
-                    self.get_dependencies(*lesson_id)
-                        .is_some_and(|dependencies| {
-                            !dependencies.is_empty()
-                                && dependencies
-                                    .iter()
-                                    .all(|dep| self.get_unit_type(*dep).is_some())
-                        })
-                });
+                let has_starting_dependencies = !starting_lessons.is_empty()
+                    && starting_lessons.iter().all(|lesson_id| {
+                        self.get_dependencies(*lesson_id)
+                            .is_some_and(|dependencies| {
+                                !dependencies.is_empty()
+                                    && dependencies
+                                        .iter()
+                                        .all(|dep| self.get_unit_type(*dep).is_some())
+                            })
+                    });
                 if has_starting_dependencies {
                     Arc::make_mut(&mut self.dependency_sinks).remove(course_id);
                 }
-- 
2.43.0


From ce2e4b7bfd45bb118607b12fd1b8041dd7502d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 02/30] fix: do not start the search from lessons with missing
 dependencies

A lesson whose only dependencies are missing from the library was used as a starting unit
and scheduled even if the dependencies of its course were not satisfied.
---
 src/scheduler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 0890e73..d742e67 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -238,9 +238,11 @@ impl DepthFirstScheduler {
 
         // Some courses added to the original list in the previous steps might have other
         // dependencies, some of which exist in the course library. This means they cannot be
-        // considered a starting course, so remove them from the final output.
+        // considered a starting course, so remove them from the final output. The same goes for
+        // lessons, which are reached through their course once its dependencies are satisfied.
         starting_courses
             .into_iter()
+            .filter(|unit_id| graph.get_unit_type(*unit_id) == Some(UnitType::Course))
             .filter(|course_id| {
                 graph
                     .get_dependencies(*course_id)
-- 
2.43.0


From 070242d7d8050d187bd5d07a8494b83c878f88a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:56 +0000
Subject: [PATCH 03/30] fix: lessons in a superseded course do not block their
 dependents

The lessons of a superseded course are not scheduled, so a dependent of one of them whose
score is low could never become available.
---
 src/scheduler.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index d742e67..e263dfb 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -555,12 +555,15 @@ impl DepthFirstScheduler {
             return true;
         }
 
-        // The dependency is considered as satisfied if it's been superseded by another unit.
-        let superseding = self.unit_scorer.get_superseding_recursive(dependency_id);
-        if let Some(superseding) = superseding
-            && self.unit_scorer.is_superseded(dependency_id, &superseding)
-        {
-            return true;
+        // The dependency is considered as satisfied if it's been superseded by another unit. The
+        // same applies to lessons belonging to a superseded course, since they are not scheduled.
+        for unit_id in [dependency_id, course_id] {
+            let superseding = self.unit_scorer.get_superseding_recursive(unit_id);
+            if let Some(superseding) = superseding
+                && self.unit_scorer.is_superseded(unit_id, &superseding)
+            {
+                return true;
+            }
         }
 
         // Finally, check if the unit passes the threshold to consider the dependency as satisfied.
-- 
2.43.0


From d69e0f9f67da8da3666babc1530cec23da927e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:09 +0000
Subject: [PATCH 04/30] fix: invalidate the cached scores of every unit
 affected by a change

A change in the score of a unit also affects the scores of the units that it supersedes, and
removing a prefix from the blacklist affects the courses of the matching units. Those scores
were kept in the cache until the library was opened again.
---
 src/scheduler/unit_scorer.rs | 56 +++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 329fb57..0881f30 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -101,33 +101,20 @@ impl UnitScorer {
     pub(super) fn invalidate_cached_score(&self, unit_id: Ustr) {
         // Remove the unit itself from all caches.
         self.exercise_cache.borrow_mut().remove(&unit_id);
-        self.lesson_cache.borrow_mut().remove(&unit_id);
-        self.course_cache.borrow_mut().remove(&unit_id);
-        self.lesson_trials_cache.borrow_mut().remove(&unit_id);
-        self.course_trials_cache.borrow_mut().remove(&unit_id);
+        self.remove_cached_averages(unit_id);
 
         // Invalidate the caches depending on the type of the unit.
         let graph = self.data.unit_graph.read();
+        let mut affected_units = vec![unit_id];
         let mut exercise_cache = self.exercise_cache.borrow_mut();
         match graph.get_unit_type(unit_id) {
             // If the unit is an exercise, invalidate the cached score of its lesson and course. If
             // the unit is a lesson, invalidate the cached score of its course.
             Some(UnitType::Exercise) => {
-                if let Some(lesson_id) = graph.get_exercise_lesson(unit_id) {
-                    self.lesson_cache.borrow_mut().remove(&lesson_id);
-                    self.lesson_trials_cache.borrow_mut().remove(&lesson_id);
-                    if let Some(course_id) = graph.get_lesson_course(lesson_id) {
-                        self.course_cache.borrow_mut().remove(&course_id);
-                        self.course_trials_cache.borrow_mut().remove(&course_id);
-                    }
-                }
+                affected_units.extend(graph.get_exercise_lesson(unit_id));
             }
             // For lessons, invalidate the scores of all exercises in the lesson.
             Some(UnitType::Lesson) => {
-                if let Some(course_id) = graph.get_lesson_course(unit_id) {
-                    self.course_cache.borrow_mut().remove(&course_id);
-                    self.course_trials_cache.borrow_mut().remove(&course_id);
-                }
                 if let Some(exercise_ids) = graph.get_lesson_exercises(unit_id) {
                     for exercise_id in exercise_ids.iter() {
                         exercise_cache.remove(exercise_id);
@@ -137,11 +124,8 @@ impl UnitScorer {
             // For courses, invalidate the scores of all lessons and exercises in the course.
             Some(UnitType::Course) => {
                 if let Some(lesson_ids) = graph.get_course_lessons(unit_id) {
-                    let mut lesson_cache = self.lesson_cache.borrow_mut();
-                    let mut lesson_trials_cache = self.lesson_trials_cache.borrow_mut();
                     for lesson_id in lesson_ids.iter() {
-                        lesson_cache.remove(lesson_id);
-                        lesson_trials_cache.remove(lesson_id);
+                        affected_units.push(*lesson_id);
                         if let Some(exercise_ids) = graph.get_lesson_exercises(*lesson_id) {
                             for exercise_id in exercise_ids.iter() {
                                 exercise_cache.remove(exercise_id);
@@ -152,6 +136,28 @@ impl UnitScorer {
             }
             None => {}
         }
+
+        // A change in the score of a lesson affects its course, and a change in the score of a unit
+        // affects whether the units it supersedes have a valid score.
+        let mut visited = UstrSet::default();
+        while let Some(affected_id) = affected_units.pop() {
+            if !visited.insert(affected_id) {
+                continue;
+            }
+            self.remove_cached_averages(affected_id);
+            affected_units.extend(graph.get_lesson_course(affected_id));
+            if let Some(superseded) = graph.get_supersedes(affected_id) {
+                affected_units.extend(superseded.iter().copied());
+            }
+        }
+    }
+
+    /// Removes the given unit from the caches of values averaged over lessons and courses.
+    fn remove_cached_averages(&self, unit_id: Ustr) {
+        self.lesson_cache.borrow_mut().remove(&unit_id);
+        self.course_cache.borrow_mut().remove(&unit_id);
+        self.lesson_trials_cache.borrow_mut().remove(&unit_id);
+        self.course_trials_cache.borrow_mut().remove(&unit_id);
     }
 
     /// Removes the cached score for any unit with the given prefix.
@@ -173,6 +179,16 @@ impl UnitScorer {
         self.course_trials_cache
             .borrow_mut()
             .retain(|unit_id, _| !unit_id.starts_with(prefix));
+
+        // Also invalidate the units affected by an update to the score of any of those units.
+        let matching_units = self
+            .data
+            .course_library
+            .read()
+            .get_matching_prefix(prefix, None);
+        for unit_id in matching_units {
+            self.invalidate_cached_score(unit_id);
+        }
     }
 
     /// Returns the score for the given exercise.
-- 
2.43.0


From 4da20fe92b2be388cc7581f28d2cdd96f24b3e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:09 +0000
Subject: [PATCH 05/30] fix: invalidate the cached scores when the practice
 history is edited

Recording, trimming and removing trials, deltas and rewards through the library did not
affect the scores that the scheduler had already cached.
---
 src/lib.rs | 53 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4a02d77..1fc2e6a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -508,17 +508,28 @@ impl PracticeRewards for Trane {
         &mut self,
         rewards: &[UnitReward],
     ) -> Result<Vec<Ustr>, PracticeRewardsError> {
-        self.practice_rewards.write().record_unit_rewards(rewards)
+        // Make sure to invalidate any cached scores for the units that were updated.
+        let updated_ids = self.practice_rewards.write().record_unit_rewards(rewards)?;
+        for unit_id in &updated_ids {
+            self.scheduler.invalidate_cached_score(*unit_id);
+        }
+        Ok(updated_ids)
     }
 
     fn trim_rewards(&mut self, num_rewards: u32) -> Result<(), PracticeRewardsError> {
-        self.practice_rewards.write().trim_rewards(num_rewards)
+        // Make sure to invalidate any cached scores, as any unit might be affected.
+        self.practice_rewards.write().trim_rewards(num_rewards)?;
+        self.scheduler.invalidate_cached_scores_with_prefix("");
+        Ok(())
     }
 
     fn remove_rewards_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeRewardsError> {
+        // Make sure to invalidate any cached scores of units with the given prefix.
         self.practice_rewards
             .write()
-            .remove_rewards_with_prefix(prefix)
+            .remove_rewards_with_prefix(prefix)?;
+        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
+        Ok(())
     }
 }
 
@@ -538,17 +549,30 @@ impl PracticeDeltas for Trane {
         &mut self,
         deltas: &[ExerciseDelta],
     ) -> Result<(), PracticeDeltasError> {
-        self.practice_deltas.write().record_exercise_deltas(deltas)
+        // Make sure to invalidate any cached scores for the given exercises.
+        self.practice_deltas
+            .write()
+            .record_exercise_deltas(deltas)?;
+        for delta in deltas {
+            self.scheduler.invalidate_cached_score(delta.exercise_id);
+        }
+        Ok(())
     }
 
     fn trim_deltas(&mut self, num_deltas: u32) -> Result<(), PracticeDeltasError> {
-        self.practice_deltas.write().trim_deltas(num_deltas)
+        // Make sure to invalidate any cached scores, as any exercise might be affected.
+        self.practice_deltas.write().trim_deltas(num_deltas)?;
+        self.scheduler.invalidate_cached_scores_with_prefix("");
+        Ok(())
     }
 
     fn remove_deltas_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeDeltasError> {
+        // Make sure to invalidate any cached scores of units with the given prefix.
         self.practice_deltas
             .write()
-            .remove_deltas_with_prefix(prefix)
+            .remove_deltas_with_prefix(prefix)?;
+        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
+        Ok(())
     }
 }
 
@@ -568,17 +592,28 @@ impl PracticeStats for Trane {
         &mut self,
         trials: &[ExerciseTrial],
     ) -> Result<(), PracticeStatsError> {
-        self.practice_stats.write().record_exercise_scores(trials)
+        // Make sure to invalidate any cached scores for the given exercises.
+        self.practice_stats.write().record_exercise_scores(trials)?;
+        for trial in trials {
+            self.scheduler.invalidate_cached_score(trial.exercise_id);
+        }
+        Ok(())
     }
 
     fn trim_scores(&mut self, num_scores: u32) -> Result<(), PracticeStatsError> {
-        self.practice_stats.write().trim_scores(num_scores)
+        // Make sure to invalidate any cached scores, as any exercise might be affected.
+        self.practice_stats.write().trim_scores(num_scores)?;
+        self.scheduler.invalidate_cached_scores_with_prefix("");
+        Ok(())
     }
 
     fn remove_scores_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeStatsError> {
+        // Make sure to invalidate any cached scores of units with the given prefix.
         self.practice_stats
             .write()
-            .remove_scores_with_prefix(prefix)
+            .remove_scores_with_prefix(prefix)?;
+        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
+        Ok(())
     }
 }
 #[cfg_attr(coverage, coverage(off))]
-- 
2.43.0


From 0d2befd4997e6f9efc87493e132cac7acbd182d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:44 +0000
Subject: [PATCH 06/30] fix: match unit ID prefixes literally

The prefixes were used as LIKE patterns: an underscore or a percent sign in a unit ID matched
any character, and letters matched in either case, so data of other units was removed.
---
 src/blacklist.rs        | 7 ++++---
 src/practice_deltas.rs  | 7 ++++---
 src/practice_rewards.rs | 4 ++--
 src/practice_stats.rs   | 7 ++++---
 4 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/blacklist.rs b/src/blacklist.rs
index e93ab9b..1f9cb6c 100644
--- a/src/blacklist.rs
+++ b/src/blacklist.rs
@@ -134,9 +134,10 @@ impl LocalBlacklist {
     fn remove_prefix_from_blacklist_helper(&mut self, prefix: &str) -> Result<()> {
         // Search for all the entries with the given prefix.
         let connection = self.connection.lock();
-        let mut stmt =
-            connection.prepare_cached("SELECT unit_id from blacklist WHERE unit_id LIKE $1;")?;
-        let mut rows = stmt.query(params![format!("{}%", prefix)])?;
+        let mut stmt = connection.prepare_cached(
+            "SELECT unit_id from blacklist WHERE substr(unit_id, 1, length($1)) = $1;",
+        )?;
+        let mut rows = stmt.query(params![prefix])?;
 
         // Remove all the entries with the given prefix.
         let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
diff --git a/src/practice_deltas.rs b/src/practice_deltas.rs
index aa62749..8b85086 100644
--- a/src/practice_deltas.rs
+++ b/src/practice_deltas.rs
@@ -162,10 +162,11 @@ impl LocalPracticeDeltas {
     /// Helper function to remove all the deltas from units that match the given prefix.
     fn remove_deltas_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
         let connection = self.connection.lock();
-        let mut uid_stmt =
-            connection.prepare_cached("SELECT unit_uid FROM uids WHERE unit_id LIKE $1;")?;
+        let mut uid_stmt = connection.prepare_cached(
+            "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
+        )?;
         let uids = uid_stmt
-            .query_map(params![format!("{}%", prefix)], |row| row.get(0))?
+            .query_map(params![prefix], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice deltas DB"))
             .collect::<Result<Vec<i64>, _>>()?;
 
diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 4a028c0..3c94deb 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -252,8 +252,8 @@ impl LocalPracticeRewards {
         // Get all the UIDs for the units that match the prefix.
         let connection = self.connection.lock();
         for row in connection
-            .prepare("SELECT unit_uid FROM uids WHERE unit_id LIKE ?1")?
-            .query_map(params![format!("{}%", prefix)], |row| row.get(0))?
+            .prepare("SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length(?1)) = ?1")?
+            .query_map(params![prefix], |row| row.get(0))?
         {
             let unit_uid: i64 = row?;
             connection.execute(
diff --git a/src/practice_stats.rs b/src/practice_stats.rs
index a05194e..def10f7 100644
--- a/src/practice_stats.rs
+++ b/src/practice_stats.rs
@@ -185,10 +185,11 @@ impl LocalPracticeStats {
     fn remove_scores_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
         // Get all the UIDs for the units that match the prefix.
         let connection = self.connection.lock();
-        let mut uid_stmt =
-            connection.prepare_cached("SELECT unit_uid FROM uids WHERE unit_id LIKE $1;")?;
+        let mut uid_stmt = connection.prepare_cached(
+            "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
+        )?;
         let uids = uid_stmt
-            .query_map(params![format!("{}%", prefix)], |row| row.get(0))?
+            .query_map(params![prefix], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice stats DB"))
             .collect::<Result<Vec<i64>, _>>()?;
 
-- 
2.43.0


From db0d14010ebab6f4a6eac913bf9125bceb26a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 07/30] fix: trim trials and deltas with the same timestamp to
 the requested number

Rows sharing the timestamp of a row that is kept were never deleted.
---
 src/practice_deltas.rs | 4 ++--
 src/practice_stats.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/practice_deltas.rs b/src/practice_deltas.rs
index 8b85086..9c20495 100644
--- a/src/practice_deltas.rs
+++ b/src/practice_deltas.rs
@@ -148,8 +148,8 @@ impl LocalPracticeDeltas {
 
         for uid in uids {
             let mut stmt = connection.prepare_cached(
-                "DELETE FROM practice_deltas WHERE unit_uid = $1 AND timestamp NOT IN (
-                    SELECT timestamp FROM practice_deltas WHERE unit_uid = $1
+                "DELETE FROM practice_deltas WHERE unit_uid = $1 AND id NOT IN (
+                    SELECT id FROM practice_deltas WHERE unit_uid = $1
                     ORDER BY timestamp DESC LIMIT ?2);",
             )?;
             let _ = stmt.execute(params![uid, num_deltas])?;
diff --git a/src/practice_stats.rs b/src/practice_stats.rs
index def10f7..00e6052 100644
--- a/src/practice_stats.rs
+++ b/src/practice_stats.rs
@@ -169,8 +169,8 @@ impl LocalPracticeStats {
         // Delete the oldest trials for each UID but keep the most recent `num_scores` trials.
         for uid in uids {
             let mut stmt = connection.prepare_cached(
-                "DELETE FROM practice_stats WHERE unit_uid = $1 AND timestamp NOT IN (
-                    SELECT timestamp FROM practice_stats WHERE unit_uid = $1
+                "DELETE FROM practice_stats WHERE unit_uid = $1 AND id NOT IN (
+                    SELECT id FROM practice_stats WHERE unit_uid = $1
                     ORDER BY timestamp DESC LIMIT ?2);",
             )?;
             let _ = stmt.execute(params![uid, num_scores])?;
-- 
2.43.0


From 71a840f2c8d7f912ec88cb2b7c5c3dde4f0fcf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:19 +0000
Subject: [PATCH 08/30] fix: forget cached rewards that are removed from the
 database

A reward similar to one that was trimmed or removed was not stored again while the library
stayed open.
---
 src/practice_rewards.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 3c94deb..9f7af5b 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -244,6 +244,9 @@ impl LocalPracticeRewards {
                 params![unit_uid, num_rewards],
             )?;
         }
+
+        // The cache must not contain rewards that are no longer stored.
+        self.cache.cache.clear();
         Ok(())
     }
 
@@ -262,6 +265,11 @@ impl LocalPracticeRewards {
             )?;
         }
 
+        // The cache must not contain rewards that are no longer stored.
+        self.cache
+            .cache
+            .retain(|unit_id, _| !unit_id.starts_with(prefix));
+
         // Call the `VACUUM` command to reclaim the space freed by the deleted trials.
         connection.execute_batch("VACUUM;")?;
         Ok(())
-- 
2.43.0


From 6f7dbce0e0f4fee337cf9b73375a3ba57c36721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 09/30] fix: use the configured number of deltas in the score
 of an exercise

---
 src/scheduler/unit_scorer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 0881f30..aabd74c 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -222,7 +222,7 @@ impl UnitScorer {
             .data
             .practice_deltas
             .read()
-            .get_deltas(exercise_id, self.options.num_trials)
+            .get_deltas(exercise_id, self.options.num_deltas)
             .unwrap_or_default();
         let score = self
             .exercise_scorer
-- 
2.43.0


From 084620884cbbbc89b5ecade2cf0901fdd9a32f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:19 +0000
Subject: [PATCH 10/30] fix: do not offer blacklisted exercises in the review
 list

---
 src/scheduler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index e263dfb..0b52cc6 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -941,6 +941,11 @@ impl DepthFirstScheduler {
                     candidates.extend(self.get_candidates_from_lesson(unit_id)?);
                 }
                 UnitType::Exercise => {
+                    // Skip the exercise if it, its lesson, or its course are blacklisted.
+                    if self.data.inside_blacklisted(unit_id)? {
+                        continue;
+                    }
+
                     // Retrieve the exercise's lesson and course IDs.
                     let lesson_id = self.data.get_lesson_id(unit_id).unwrap_or_default();
                     let course_id = self.data.get_course_id(lesson_id).unwrap_or_default();
-- 
2.43.0


From 9701085ee5fba241b0dc1ab1d58da2ef053316b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:22 +0000
Subject: [PATCH 11/30] fix: do not repeat exercises in a batch if the units in
 the filter overlap

---
 src/scheduler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 0b52cc6..f10ba3f 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -1061,10 +1061,14 @@ impl ExerciseScheduler for DepthFirstScheduler {
         filter: Option<ExerciseFilter>,
     ) -> Result<Vec<ExerciseManifest>, ExerciseSchedulerError> {
         // Retrieve an initial batch of candidates based on the type of the filter.
-        let initial_candidates = self
+        let mut initial_candidates = self
             .get_initial_candidates(filter)
             .map_err(ExerciseSchedulerError::GetExerciseBatch)?;
 
+        // The same exercise might be found several times if the units in the filter overlap.
+        let mut seen = UstrSet::default();
+        initial_candidates.retain(|candidate| seen.insert(candidate.exercise_id));
+
         // Knock out highly encompassed exercises from the initial batch to ensure that they are not
         // overrepresented in the final batch.
         let knocked_out = self.review_knocker.knock_out_reviews(initial_candidates);
-- 
2.43.0


From 9b95dc2182a8e8fad09e2fdecb9a8fd1bb7bada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:03 +0000
Subject: [PATCH 12/30] fix: ignore units missing from the library when
 creating a batch

---
 src/scheduler.rs              |  6 +++++-
 src/scheduler/relearn_pile.rs | 11 ++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index f10ba3f..066a3b4 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -930,7 +930,11 @@ impl DepthFirstScheduler {
         let review_list = self.data.review_list.read().get_review_list_entries()?;
         let frequency_map = self.data.frequency_map.read();
         for unit_id in review_list {
-            match self.data.get_unit_type_strict(unit_id)? {
+            // Skip units that are not in the course library.
+            let Some(unit_type) = self.data.get_unit_type(unit_id) else {
+                continue;
+            };
+            match unit_type {
                 UnitType::Course => {
                     // If the unit is a course, use the course scheduler to retrieve candidates.
                     let course_ids = vec![unit_id];
diff --git a/src/scheduler/relearn_pile.rs b/src/scheduler/relearn_pile.rs
index ea95227..9d92118 100644
--- a/src/scheduler/relearn_pile.rs
+++ b/src/scheduler/relearn_pile.rs
@@ -5,7 +5,7 @@ use rand::seq::IteratorRandom;
 use ustr::{Ustr, UstrSet};
 
 use crate::{
-    data::{MasteryScore, SchedulerOptions},
+    data::{MasteryScore, SchedulerOptions, UnitType},
     scheduler::{Candidate, data::SchedulerData},
 };
 
@@ -58,11 +58,12 @@ impl RelearnPile {
             .collect()
     }
 
-    /// Cleans up blacklisted exercises from the pile before selecting exercises.
+    /// Cleans up blacklisted and missing exercises from the pile before selecting exercises.
     pub fn select_exercises(&self, data: &SchedulerData) -> Vec<Candidate> {
-        self.pile
-            .write()
-            .retain(|id| !data.inside_blacklisted(*id).unwrap_or(false));
+        self.pile.write().retain(|id| {
+            data.get_unit_type(*id) == Some(UnitType::Exercise)
+                && !data.inside_blacklisted(*id).unwrap_or(false)
+        });
         self.select_exercises_helper()
     }
 }
-- 
2.43.0


From 83a068e9b60ee6e8c181dcf2e337621839971b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:04 +0000
Subject: [PATCH 13/30] fix: apply changes to the scheduler options to every
 part of the scheduler

---
 src/scheduler.rs              |  5 ++++-
 src/scheduler/filter.rs       |  5 +++++
 src/scheduler/relearn_pile.rs |  5 +++++
 src/scheduler/unit_scorer.rs  | 12 ++++++++++++
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 066a3b4..cc00dad 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -1199,11 +1199,14 @@ impl ExerciseScheduler for DepthFirstScheduler {
     }
 
     fn set_scheduler_options(&mut self, options: SchedulerOptions) {
+        self.unit_scorer.set_options(options.clone());
+        self.filter.set_options(options.clone());
+        self.relearn_pile.set_options(options.clone());
         self.data.options = options;
     }
 
     fn reset_scheduler_options(&mut self) {
-        self.data.options = SchedulerOptions::default();
+        self.set_scheduler_options(SchedulerOptions::default());
     }
 
     fn override_current_timestamp(&mut self, timestamp: Option<i64>) {
diff --git a/src/scheduler/filter.rs b/src/scheduler/filter.rs
index 2d1d378..710ac7e 100644
--- a/src/scheduler/filter.rs
+++ b/src/scheduler/filter.rs
@@ -75,6 +75,11 @@ impl CandidateFilter {
         Self { data }
     }
 
+    /// Sets the scheduler options.
+    pub fn set_options(&mut self, options: SchedulerOptions) {
+        self.data.options = options;
+    }
+
     /// Filters the candidates whose score fit in the given mastery window.
     fn candidates_in_window(
         candidates: &[Candidate],
diff --git a/src/scheduler/relearn_pile.rs b/src/scheduler/relearn_pile.rs
index 9d92118..406349f 100644
--- a/src/scheduler/relearn_pile.rs
+++ b/src/scheduler/relearn_pile.rs
@@ -29,6 +29,11 @@ impl RelearnPile {
         }
     }
 
+    /// Sets the scheduler options.
+    pub fn set_options(&mut self, options: SchedulerOptions) {
+        self.options = options;
+    }
+
     /// Updates the relearning pile based on the score of an exercise.
     pub fn update(&self, exercise_id: Ustr, score: &MasteryScore) {
         let mut relearning_pile = self.pile.write();
diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index aabd74c..f32393e 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -85,6 +85,18 @@ impl UnitScorer {
         }
     }
 
+    /// Sets the options used to schedule exercises. The cached scores are removed because they
+    /// depend on the options.
+    pub(super) fn set_options(&mut self, options: SchedulerOptions) {
+        self.data.options = options.clone();
+        self.options = options;
+        self.exercise_cache.get_mut().clear();
+        self.lesson_cache.get_mut().clear();
+        self.course_cache.get_mut().clear();
+        self.lesson_trials_cache.get_mut().clear();
+        self.course_trials_cache.get_mut().clear();
+    }
+
     /// Sets the timestamp override used to compute scores.
     pub(super) fn set_override_timestamp(&mut self, timestamp: Option<i64>) {
         self.override_timestamp = timestamp;
-- 
2.43.0


From 2cec3d3b7050207c95029e96e4adb58e66ca7f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:53 +0000
Subject: [PATCH 14/30] fix: serialize concurrent access to the scheduler

---
 src/lib.rs | 76 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 26 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1fc2e6a..1e15d02 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -73,7 +73,7 @@ pub mod utils;
 
 use anyhow::{Context, Result, bail, ensure};
 use error::*;
-use parking_lot::RwLock;
+use parking_lot::{Mutex, RwLock};
 use std::{
     fs::{File, create_dir},
     io::Write,
@@ -166,8 +166,9 @@ pub struct Trane {
     /// from the scheduler so that tests can have access to it.
     scheduler_data: SchedulerData,
 
-    /// The object managing the scheduling algorithm.
-    scheduler: DepthFirstScheduler,
+    /// The object managing the scheduling algorithm. Its caches are not safe for concurrent access,
+    /// so it's protected by a mutex.
+    scheduler: Mutex<DepthFirstScheduler>,
 
     /// The object managing the study sessions saved by the user.
     study_session_manager: Arc<RwLock<dyn StudySessionManager + Send + Sync>>,
@@ -295,7 +296,7 @@ impl Trane {
             preferences_manager,
             review_list,
             scheduler_data: scheduler_data.clone(),
-            scheduler: DepthFirstScheduler::new(scheduler_data),
+            scheduler: Mutex::new(DepthFirstScheduler::new(scheduler_data)),
             study_session_manager: study_sessions_manager,
             unit_graph,
         })
@@ -370,19 +371,21 @@ impl Trane {
 impl Blacklist for Trane {
     fn add_to_blacklist(&mut self, unit_id: Ustr) -> Result<(), BlacklistError> {
         // Make sure to invalidate any cached scores for the given unit.
-        self.scheduler.invalidate_cached_score(unit_id);
+        self.scheduler.lock().invalidate_cached_score(unit_id);
         self.blacklist.write().add_to_blacklist(unit_id)
     }
 
     fn remove_from_blacklist(&mut self, unit_id: Ustr) -> Result<(), BlacklistError> {
         // Make sure to invalidate any cached scores for the given unit.
-        self.scheduler.invalidate_cached_score(unit_id);
+        self.scheduler.lock().invalidate_cached_score(unit_id);
         self.blacklist.write().remove_from_blacklist(unit_id)
     }
 
     fn remove_prefix_from_blacklist(&mut self, prefix: &str) -> Result<(), BlacklistError> {
         // Make sure to invalidate any cached scores of units with the given prefix.
-        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
+        self.scheduler
+            .lock()
+            .invalidate_cached_scores_with_prefix(prefix);
         self.blacklist.write().remove_prefix_from_blacklist(prefix)
     }
 
@@ -440,7 +443,7 @@ impl ExerciseScheduler for Trane {
         &self,
         filter: Option<ExerciseFilter>,
     ) -> Result<Vec<ExerciseManifest>, ExerciseSchedulerError> {
-        self.scheduler.get_exercise_batch(filter)
+        self.scheduler.lock().get_exercise_batch(filter)
     }
 
     fn score_exercise(
@@ -449,35 +452,39 @@ impl ExerciseScheduler for Trane {
         score: MasteryScore,
         timestamp: i64,
     ) -> Result<(), ExerciseSchedulerError> {
-        self.scheduler.score_exercise(exercise_id, score, timestamp)
+        self.scheduler
+            .lock()
+            .score_exercise(exercise_id, score, timestamp)
     }
 
     fn get_unit_score(&self, unit_id: Ustr) -> Result<Option<f32>, ExerciseSchedulerError> {
-        self.scheduler.get_unit_score(unit_id)
+        self.scheduler.lock().get_unit_score(unit_id)
     }
 
     fn invalidate_cached_score(&self, unit_id: Ustr) {
-        self.scheduler.invalidate_cached_score(unit_id);
+        self.scheduler.lock().invalidate_cached_score(unit_id);
     }
 
     fn invalidate_cached_scores_with_prefix(&self, prefix: &str) {
-        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
+        self.scheduler
+            .lock()
+            .invalidate_cached_scores_with_prefix(prefix);
     }
 
     fn get_scheduler_options(&self) -> SchedulerOptions {
-        self.scheduler.get_scheduler_options()
+        self.scheduler.lock().get_scheduler_options()
     }
 
     fn set_scheduler_options(&mut self, options: SchedulerOptions) {
-        self.scheduler.set_scheduler_options(options);
+        self.scheduler.lock().set_scheduler_options(options);
     }
 
     fn reset_scheduler_options(&mut self) {
-        self.scheduler.reset_scheduler_options();
+        self.scheduler.lock().reset_scheduler_options();
     }
 
     fn override_current_timestamp(&mut self, timestamp: Option<i64>) {
-        self.scheduler.override_current_timestamp(timestamp);
+        self.scheduler.lock().override_current_timestamp(timestamp);
     }
 }
 
@@ -511,7 +518,7 @@ impl PracticeRewards for Trane {
         // Make sure to invalidate any cached scores for the units that were updated.
         let updated_ids = self.practice_rewards.write().record_unit_rewards(rewards)?;
         for unit_id in &updated_ids {
-            self.scheduler.invalidate_cached_score(*unit_id);
+            self.scheduler.lock().invalidate_cached_score(*unit_id);
         }
         Ok(updated_ids)
     }
@@ -519,7 +526,9 @@ impl PracticeRewards for Trane {
     fn trim_rewards(&mut self, num_rewards: u32) -> Result<(), PracticeRewardsError> {
         // Make sure to invalidate any cached scores, as any unit might be affected.
         self.practice_rewards.write().trim_rewards(num_rewards)?;
-        self.scheduler.invalidate_cached_scores_with_prefix("");
+        self.scheduler
+            .lock()
+            .invalidate_cached_scores_with_prefix("");
         Ok(())
     }
 
@@ -528,7 +537,9 @@ impl PracticeRewards for Trane {
         self.practice_rewards
             .write()
             .remove_rewards_with_prefix(prefix)?;
-        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
+        self.scheduler
+            .lock()
+            .invalidate_cached_scores_with_prefix(prefix);
         Ok(())
     }
 }
@@ -554,7 +565,9 @@ impl PracticeDeltas for Trane {
             .write()
             .record_exercise_deltas(deltas)?;
         for delta in deltas {
-            self.scheduler.invalidate_cached_score(delta.exercise_id);
+            self.scheduler
+                .lock()
+                .invalidate_cached_score(delta.exercise_id);
         }
         Ok(())
     }
@@ -562,7 +575,9 @@ impl PracticeDeltas for Trane {
     fn trim_deltas(&mut self, num_deltas: u32) -> Result<(), PracticeDeltasError> {
         // Make sure to invalidate any cached scores, as any exercise might be affected.
         self.practice_deltas.write().trim_deltas(num_deltas)?;
-        self.scheduler.invalidate_cached_scores_with_prefix("");
+        self.scheduler
+            .lock()
+            .invalidate_cached_scores_with_prefix("");
         Ok(())
     }
 
@@ -571,7 +586,9 @@ impl PracticeDeltas for Trane {
         self.practice_deltas
             .write()
             .remove_deltas_with_prefix(prefix)?;
-        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
+        self.scheduler
+            .lock()
+            .invalidate_cached_scores_with_prefix(prefix);
         Ok(())
     }
 }
@@ -595,7 +612,9 @@ impl PracticeStats for Trane {
         // Make sure to invalidate any cached scores for the given exercises.
         self.practice_stats.write().record_exercise_scores(trials)?;
         for trial in trials {
-            self.scheduler.invalidate_cached_score(trial.exercise_id);
+            self.scheduler
+                .lock()
+                .invalidate_cached_score(trial.exercise_id);
         }
         Ok(())
     }
@@ -603,7 +622,9 @@ impl PracticeStats for Trane {
     fn trim_scores(&mut self, num_scores: u32) -> Result<(), PracticeStatsError> {
         // Make sure to invalidate any cached scores, as any exercise might be affected.
         self.practice_stats.write().trim_scores(num_scores)?;
-        self.scheduler.invalidate_cached_scores_with_prefix("");
+        self.scheduler
+            .lock()
+            .invalidate_cached_scores_with_prefix("");
         Ok(())
     }
 
@@ -612,7 +633,9 @@ impl PracticeStats for Trane {
         self.practice_stats
             .write()
             .remove_scores_with_prefix(prefix)?;
-        self.scheduler.invalidate_cached_scores_with_prefix(prefix);
+        self.scheduler
+            .lock()
+            .invalidate_cached_scores_with_prefix(prefix);
         Ok(())
     }
 }
@@ -772,7 +795,8 @@ impl UnitGraph for Trane {
 }
 
 /// Implementation of `Send` and `Sync` for `Trane`. The implementation is safe because all the
-/// internal mutability of `Trane` is managed by `Arc<RwLock<...>>`.
+/// internal mutability of `Trane` is managed by `Arc<RwLock<...>>` and by the mutex protecting the
+/// scheduler.
 unsafe impl Send for Trane {}
 unsafe impl Sync for Trane {}
 
-- 
2.43.0


From 556814f73eed591ca3b19d878da8025592835725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:15 +0000
Subject: [PATCH 15/30] fix: find the part of long study sessions without
 overflowing

---
 src/data/filter.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/data/filter.rs b/src/data/filter.rs
index 89019c4..e4d2035 100644
--- a/src/data/filter.rs
+++ b/src/data/filter.rs
@@ -357,13 +357,12 @@ impl StudySessionData {
         if minutes_since_start < 0 {
             return self.definition.parts[0].clone();
         }
-        let minutes_since_start = minutes_since_start as u32;
 
         // Find the first part that has not been completed yet. If all parts have been completed,
         // return the last part.
-        let mut session_length = 0;
+        let mut session_length: i64 = 0;
         for part in &self.definition.parts {
-            session_length += part.duration();
+            session_length += i64::from(part.duration());
             if minutes_since_start < session_length {
                 return part.clone();
             }
-- 
2.43.0


From 853670cfc006f86845a60e33a10061a04b294754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:36 +0000
Subject: [PATCH 16/30] fix: reject superseding cycles that go through the
 lessons of a course

---
 src/graph.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 88bf4df..39c4a3d 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -497,6 +497,21 @@ impl InMemoryUnitGraph {
             "cycle in superseded graph detected",
         )?;
 
+        // Deciding whether a unit is superseded requires the scores of the superseding units, and
+        // the score of a course requires the scores of its lessons. Check that there are no cycles
+        // across both relationships, as those scores could not be computed.
+        let superseded_keys: Vec<Ustr> = self.superseded_by.keys().copied().collect();
+        Self::check_graph_cycles(
+            &superseded_keys,
+            |id| {
+                let superseding = self.get_superseded_by(id).unwrap_or_default();
+                let lessons = self.get_course_lessons(id).unwrap_or_default();
+                Some(superseding.union(&lessons).copied().collect())
+            },
+            |_, _| Ok(()),
+            "cycle in superseded graph detected",
+        )?;
+
         // Check the encompasses and encompassed_by graphs for cycles and consistency.
         let enc_keys: Vec<Ustr> = self.encompasses_graph.keys().copied().collect();
         Self::check_graph_cycles(
-- 
2.43.0


From fe14526853e9a093dfef890c2fdac0cba8b80c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:48 +0000
Subject: [PATCH 17/30] fix: write the user preferences atomically

A crash between truncating the file and writing it left an empty file, and the library could no
longer be opened.
---
 src/lib.rs                 | 13 +++----------
 src/preferences_manager.rs |  5 +++--
 src/utils.rs               |  8 ++++++++
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1e15d02..875f1bd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -74,12 +74,7 @@ pub mod utils;
 use anyhow::{Context, Result, bail, ensure};
 use error::*;
 use parking_lot::{Mutex, RwLock};
-use std::{
-    fs::{File, create_dir},
-    io::Write,
-    path::Path,
-    sync::Arc,
-};
+use std::{fs::create_dir, path::Path, sync::Arc};
 use ustr::{Ustr, UstrMap, UstrSet};
 
 use crate::{
@@ -225,12 +220,10 @@ impl Trane {
         // Create the user preferences file if it does not exist already.
         let user_prefs_path = trane_path.join(USER_PREFERENCES_PATH);
         if !user_prefs_path.exists() {
-            let mut file = File::create(user_prefs_path.clone())
-                .context("failed to create user_preferences.json file")?;
             let default_prefs = UserPreferences::default();
             let prefs_json = serde_json::to_string_pretty(&default_prefs)? + "\n";
-            file.write_all(prefs_json.as_bytes())
-                .context("failed to write to user_preferences.json file")?;
+            utils::write_file_atomically(&user_prefs_path, &prefs_json)
+                .context("failed to create user_preferences.json file")?;
         } else if !user_prefs_path.is_file() {
             bail!("user preferences file must be a regular file");
         }
diff --git a/src/preferences_manager.rs b/src/preferences_manager.rs
index d1ad431..895b7d6 100644
--- a/src/preferences_manager.rs
+++ b/src/preferences_manager.rs
@@ -3,7 +3,7 @@
 use anyhow::{Context, Result};
 use std::{fs, path::PathBuf};
 
-use crate::{PreferencesManagerError, data::UserPreferences};
+use crate::{PreferencesManagerError, data::UserPreferences, utils};
 
 /// A trait for managing user preferences.
 pub trait PreferencesManager {
@@ -37,7 +37,8 @@ impl LocalPreferencesManager {
     fn set_user_preferences_helper(&self, preferences: &UserPreferences) -> Result<()> {
         let pretty_json =
             serde_json::to_string_pretty(preferences).context("invalid user preferences")?;
-        fs::write(&self.path, pretty_json).context("failed to write user preferences")
+        utils::write_file_atomically(&self.path, &pretty_json)
+            .context("failed to write user preferences")
     }
 }
 
diff --git a/src/utils.rs b/src/utils.rs
index cfec402..c1d0689 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,6 +1,7 @@
 //! Contains common utilities used in multiple modules.
 
 use rusqlite::Connection;
+use std::{fs, io, path::Path};
 
 /// Returns the weighted average of the scores.
 #[must_use]
@@ -26,6 +27,13 @@ pub fn new_connection(db_path: &str) -> Result<Connection, rusqlite::Error> {
     Ok(connection)
 }
 
+/// Writes the file so that an interruption leaves either its previous contents or the new ones.
+pub fn write_file_atomically(path: &Path, contents: &str) -> Result<(), io::Error> {
+    let temp_path = path.with_extension("tmp");
+    fs::write(&temp_path, contents)?;
+    fs::rename(&temp_path, path)
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 6267b903c24005427f99065709f4f5c4681849cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 18/30] fix: skip lesson directories whose names are not valid
 UTF-8

---
 src/data/course_generator/knowledge_base.rs | 6 +++++-
 src/data/course_generator/literacy.rs       | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data/course_generator/knowledge_base.rs b/src/data/course_generator/knowledge_base.rs
index 3fcbc86..237fd81 100644
--- a/src/data/course_generator/knowledge_base.rs
+++ b/src/data/course_generator/knowledge_base.rs
@@ -655,7 +655,11 @@ impl GenerateManifests for KnowledgeBaseConfig {
             // Check if the directory name is in the format `<SHORT_LESSON_ID>.lesson`. If so, read
             // the knowledge base lesson and its exercises.
             let path = entry.path();
-            let dir_name = path.file_name().unwrap_or_default().to_str().unwrap();
+            let dir_name = path
+                .file_name()
+                .unwrap_or_default()
+                .to_str()
+                .unwrap_or_default();
             if let Some(short_id) = dir_name.strip_suffix(LESSON_SUFFIX) {
                 lessons.insert(
                     short_id.into(),
diff --git a/src/data/course_generator/literacy.rs b/src/data/course_generator/literacy.rs
index bce10c6..ef6ecbe 100644
--- a/src/data/course_generator/literacy.rs
+++ b/src/data/course_generator/literacy.rs
@@ -723,7 +723,11 @@ impl GenerateManifests for LiteracyConfig {
             // Check if the directory name is in the format `<SHORT_LESSON_ID>.lesson`. If so, read
             // the knowledge base lesson and its exercises.
             let path = entry.path();
-            let dir_name = path.file_name().unwrap_or_default().to_str().unwrap();
+            let dir_name = path
+                .file_name()
+                .unwrap_or_default()
+                .to_str()
+                .unwrap_or_default();
             if let Some(short_id) = dir_name.strip_suffix(LESSON_SUFFIX)
                 && !short_id.is_empty()
             {
-- 
2.43.0


From 6239c04e891e8ccb2810f2f8eb29b8b56019d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 19/30] fix: resolve the instructions and material of knowledge
 base lessons

---
 src/data/course_generator/knowledge_base.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data/course_generator/knowledge_base.rs b/src/data/course_generator/knowledge_base.rs
index 237fd81..643d8e7 100644
--- a/src/data/course_generator/knowledge_base.rs
+++ b/src/data/course_generator/knowledge_base.rs
@@ -13,7 +13,7 @@ use ustr::{Ustr, UstrMap};
 
 use crate::data::{
     BasicAsset, CourseManifest, ExerciseAsset, ExerciseManifest, ExerciseType, GenerateManifests,
-    GeneratedCourse, LessonManifest, UserPreferences,
+    GeneratedCourse, LessonManifest, NormalizePaths, UserPreferences,
 };
 
 /// The suffix used to recognize a directory as a knowledge base lesson.
@@ -676,7 +676,10 @@ impl GenerateManifests for KnowledgeBaseConfig {
         let manifests: Vec<(LessonManifest, Vec<ExerciseManifest>)> = lessons
             .into_iter()
             .map(|(_, (lesson, exercises))| {
-                let lesson_manifest = LessonManifest::from(lesson.clone());
+                // The manifest must contain the full paths to the instructions and material.
+                let lesson_root = course_root.join(format!("{}{}", lesson.short_id, LESSON_SUFFIX));
+                let lesson_manifest =
+                    LessonManifest::from(lesson.clone()).normalize_paths(&lesson_root)?;
                 let exercise_manifests = exercises
                     .into_iter()
                     .map(|e| {
-- 
2.43.0


From e52f55922d21a3b232458431005c933ee84fb8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:46 +0000
Subject: [PATCH 20/30] fix: fail to build courses whose manifests refer to
 missing files

---
 src/course_builder.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/course_builder.rs b/src/course_builder.rs
index 2c1cd94..3f3b3a4 100644
--- a/src/course_builder.rs
+++ b/src/course_builder.rs
@@ -9,7 +9,7 @@
 
 pub mod knowledge_base_builder;
 
-use anyhow::{Context, Result, ensure};
+use anyhow::{Result, ensure};
 use serde::{Deserialize, Serialize};
 use std::{
     fs::{File, create_dir_all},
@@ -95,10 +95,11 @@ impl ExerciseBuilder {
         }
 
         // Verify that all paths mentioned in the manifest are valid.
-        manifest.verify_paths(exercise_directory).context(format!(
+        ensure!(
+            manifest.verify_paths(exercise_directory)?,
             "failed to verify files for exercise {}",
             manifest.id
-        ))?;
+        );
         Ok(())
     }
 }
@@ -151,9 +152,11 @@ impl LessonBuilder {
         }
 
         // Verify that all paths mentioned in the manifest are valid.
-        manifest
-            .verify_paths(lesson_directory)
-            .context(format!("failed to verify files for lesson {}", manifest.id))?;
+        ensure!(
+            manifest.verify_paths(lesson_directory)?,
+            "failed to verify files for lesson {}",
+            manifest.id
+        );
         Ok(())
     }
 }
@@ -201,12 +204,11 @@ impl CourseBuilder {
         }
 
         // Verify that all paths mentioned in the manifest are valid.
-        self.course_manifest
-            .verify_paths(&course_directory)
-            .context(format!(
-                "failed to verify files for course {}",
-                self.course_manifest.id
-            ))?;
+        ensure!(
+            self.course_manifest.verify_paths(&course_directory)?,
+            "failed to verify files for course {}",
+            self.course_manifest.id
+        );
         Ok(())
     }
 }
-- 
2.43.0


From 9a47b92c097eadec995388c4b383ebf1ac8e1882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:54 +0000
Subject: [PATCH 21/30] fix: forget cached rewards when storing or removing
 them fails

---
 src/practice_rewards.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 9f7af5b..e1913d6 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -230,6 +230,9 @@ impl LocalPracticeRewards {
     /// Helper function to trim the number of rewards for each unit to the given number. If the
     /// number of rewards is less than the given number, the method deletes no rewards.
     fn trim_rewards_helper(&mut self, num_rewards: u32) -> Result<()> {
+        // The cache must not contain rewards that are no longer stored, even if the operation fails.
+        self.cache.cache.clear();
+
         let connection = self.connection.lock();
         for row in connection
             .prepare("SELECT unit_uid FROM uids")?
@@ -244,14 +247,16 @@ impl LocalPracticeRewards {
                 params![unit_uid, num_rewards],
             )?;
         }
-
-        // The cache must not contain rewards that are no longer stored.
-        self.cache.cache.clear();
         Ok(())
     }
 
     /// Helper function to remove all the rewards from units that match the given prefix.
     fn remove_rewards_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
+        // The cache must not contain rewards that are no longer stored, even if the operation fails.
+        self.cache
+            .cache
+            .retain(|unit_id, _| !unit_id.starts_with(prefix));
+
         // Get all the UIDs for the units that match the prefix.
         let connection = self.connection.lock();
         for row in connection
@@ -265,11 +270,6 @@ impl LocalPracticeRewards {
             )?;
         }
 
-        // The cache must not contain rewards that are no longer stored.
-        self.cache
-            .cache
-            .retain(|unit_id, _| !unit_id.starts_with(prefix));
-
         // Call the `VACUUM` command to reclaim the space freed by the deleted trials.
         connection.execute_batch("VACUUM;")?;
         Ok(())
@@ -290,8 +290,11 @@ impl PracticeRewards for LocalPracticeRewards {
         &mut self,
         rewards: &[UnitReward],
     ) -> Result<Vec<Ustr>, PracticeRewardsError> {
-        self.record_unit_rewards_helper(rewards)
-            .map_err(PracticeRewardsError::RecordRewards)
+        self.record_unit_rewards_helper(rewards).map_err(|e| {
+            // The cache must not contain rewards that were not stored.
+            self.cache.cache.clear();
+            PracticeRewardsError::RecordRewards(e)
+        })
     }
 
     fn trim_rewards(&mut self, num_rewards: u32) -> Result<(), PracticeRewardsError> {
-- 
2.43.0


From ab50f2bfb66ebac54f022723e9d540882f8c6ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:54 +0000
Subject: [PATCH 22/30] fix: invalidate cached scores when an operation fails
 halfway

---
 src/lib.rs       | 51 ++++++++++++++++++++++++++++--------------------
 src/scheduler.rs |  3 +++
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 875f1bd..baa88ef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -517,23 +517,26 @@ impl PracticeRewards for Trane {
     }
 
     fn trim_rewards(&mut self, num_rewards: u32) -> Result<(), PracticeRewardsError> {
-        // Make sure to invalidate any cached scores, as any unit might be affected.
-        self.practice_rewards.write().trim_rewards(num_rewards)?;
+        // Make sure to invalidate any cached scores, as any unit might be affected, even if the
+        // operation fails halfway.
+        let result = self.practice_rewards.write().trim_rewards(num_rewards);
         self.scheduler
             .lock()
             .invalidate_cached_scores_with_prefix("");
-        Ok(())
+        result
     }
 
     fn remove_rewards_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeRewardsError> {
-        // Make sure to invalidate any cached scores of units with the given prefix.
-        self.practice_rewards
+        // Make sure to invalidate any cached scores of units with the given prefix, even if the
+        // operation fails halfway.
+        let result = self
+            .practice_rewards
             .write()
-            .remove_rewards_with_prefix(prefix)?;
+            .remove_rewards_with_prefix(prefix);
         self.scheduler
             .lock()
             .invalidate_cached_scores_with_prefix(prefix);
-        Ok(())
+        result
     }
 }
 
@@ -566,23 +569,26 @@ impl PracticeDeltas for Trane {
     }
 
     fn trim_deltas(&mut self, num_deltas: u32) -> Result<(), PracticeDeltasError> {
-        // Make sure to invalidate any cached scores, as any exercise might be affected.
-        self.practice_deltas.write().trim_deltas(num_deltas)?;
+        // Make sure to invalidate any cached scores, as any exercise might be affected, even if the
+        // operation fails halfway.
+        let result = self.practice_deltas.write().trim_deltas(num_deltas);
         self.scheduler
             .lock()
             .invalidate_cached_scores_with_prefix("");
-        Ok(())
+        result
     }
 
     fn remove_deltas_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeDeltasError> {
-        // Make sure to invalidate any cached scores of units with the given prefix.
-        self.practice_deltas
+        // Make sure to invalidate any cached scores of units with the given prefix, even if the
+        // operation fails halfway.
+        let result = self
+            .practice_deltas
             .write()
-            .remove_deltas_with_prefix(prefix)?;
+            .remove_deltas_with_prefix(prefix);
         self.scheduler
             .lock()
             .invalidate_cached_scores_with_prefix(prefix);
-        Ok(())
+        result
     }
 }
 
@@ -613,23 +619,26 @@ impl PracticeStats for Trane {
     }
 
     fn trim_scores(&mut self, num_scores: u32) -> Result<(), PracticeStatsError> {
-        // Make sure to invalidate any cached scores, as any exercise might be affected.
-        self.practice_stats.write().trim_scores(num_scores)?;
+        // Make sure to invalidate any cached scores, as any exercise might be affected, even if the
+        // operation fails halfway.
+        let result = self.practice_stats.write().trim_scores(num_scores);
         self.scheduler
             .lock()
             .invalidate_cached_scores_with_prefix("");
-        Ok(())
+        result
     }
 
     fn remove_scores_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeStatsError> {
-        // Make sure to invalidate any cached scores of units with the given prefix.
-        self.practice_stats
+        // Make sure to invalidate any cached scores of units with the given prefix, even if the
+        // operation fails halfway.
+        let result = self
+            .practice_stats
             .write()
-            .remove_scores_with_prefix(prefix)?;
+            .remove_scores_with_prefix(prefix);
         self.scheduler
             .lock()
             .invalidate_cached_scores_with_prefix(prefix);
-        Ok(())
+        result
     }
 }
 #[cfg_attr(coverage, coverage(off))]
diff --git a/src/scheduler.rs b/src/scheduler.rs
index cc00dad..505ad65 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -1141,6 +1141,9 @@ impl ExerciseScheduler for DepthFirstScheduler {
                     timestamp,
                 }])
                 .map_err(|e| ExerciseSchedulerError::ScoreExercise(e.into()))?;
+
+            // The delta affects the score even if the operation fails later.
+            self.unit_scorer.invalidate_cached_score(exercise_id);
         }
 
         // Write the score to the practice stats database, invalidate the cache, and update the
-- 
2.43.0


From ec952fc819c43e4d6fc258ef0f6a22d98b38093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:54 +0000
Subject: [PATCH 23/30] fix: ignore files with names that are not UTF-8 when
 reading a library

---
 src/course_library.rs | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/course_library.rs b/src/course_library.rs
index 323b676..fd6491a 100644
--- a/src/course_library.rs
+++ b/src/course_library.rs
@@ -4,7 +4,7 @@
 //! courses that the student wishes to practice together. Courses, lessons, and exercises are
 //! defined by their manifest files (see [data](crate::data)).
 
-use anyhow::{Context, Result, anyhow, ensure};
+use anyhow::{Context, Result, ensure};
 use parking_lot::RwLock;
 use rayon::iter::{IntoParallelIterator, ParallelIterator};
 use serde::de::DeserializeOwned;
@@ -181,16 +181,6 @@ impl LocalCourseLibrary {
         serde_json::from_reader(reader).context(format!("cannot parse manifest file {display}"))
     }
 
-    /// Returns the file name of the given path.
-    fn get_file_name(path: &Path) -> Result<String> {
-        Ok(path
-            .file_name()
-            .ok_or(anyhow!("cannot get file name from DirEntry"))?
-            .to_str()
-            .ok_or(anyhow!("invalid dir entry {}", path.display()))?
-            .to_string())
-    }
-
     // Verifies that the IDs mentioned in the exercise manifest and its lesson manifest are valid
     // and agree with each other.
     #[cfg_attr(coverage, coverage(off))]
@@ -258,8 +248,7 @@ impl LocalCourseLibrary {
             if entry.path().is_dir() {
                 continue; // grcov-excl-line
             }
-            let file_name = Self::get_file_name(entry.path())?;
-            if file_name != EXERCISE_MANIFEST_FILENAME {
+            if entry.file_name() != EXERCISE_MANIFEST_FILENAME {
                 continue;
             }
 
@@ -326,8 +315,7 @@ impl LocalCourseLibrary {
             }
 
             // Ignore any files which are not named `lesson_manifest.json`.
-            let file_name = Self::get_file_name(entry.path())?;
-            if file_name != LESSON_MANIFEST_FILENAME {
+            if entry.file_name() != LESSON_MANIFEST_FILENAME {
                 continue;
             }
 
@@ -461,8 +449,7 @@ impl LocalCourseLibrary {
             }
 
             // Ignore any files which are not named `course_manifest.json`.
-            let file_name = Self::get_file_name(entry.path())?;
-            if file_name != COURSE_MANIFEST_FILENAME {
+            if entry.file_name() != COURSE_MANIFEST_FILENAME {
                 continue;
             }
 
-- 
2.43.0


From 007dfc5e47d2d1b0c2d380ea3b5adeb006c8c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:22 +0000
Subject: [PATCH 24/30] fix: fail to open a library whose path is not UTF-8
 instead of panicking

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index baa88ef..0b71dce 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -239,6 +239,10 @@ impl Trane {
         course_library: Arc<RwLock<LocalCourseLibrary>>,
     ) -> Result<Trane> {
         let config_path = library_root.join(Path::new(TRANE_CONFIG_DIR_PATH));
+        ensure!(
+            library_root.to_str().is_some(),
+            "path to the library root is not valid UTF-8"
+        );
         let user_preferences = preferences_manager.read().get_user_preferences()?;
         let unit_graph = course_library.write().get_unit_graph();
         let practice_stats = Arc::new(RwLock::new(LocalPracticeStats::new_from_disk(
-- 
2.43.0


From 42666baa7d88be0e0a6e85552af6afb0f01fd416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:37 +0000
Subject: [PATCH 25/30] fix: ignore files with names that are not UTF-8 in the
 passage directory

---
 src/data/course_generator/transcription.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/data/course_generator/transcription.rs b/src/data/course_generator/transcription.rs
index 59d9883..a749df7 100644
--- a/src/data/course_generator/transcription.rs
+++ b/src/data/course_generator/transcription.rs
@@ -7,7 +7,7 @@
 
 pub mod constants;
 
-use anyhow::{Context, Result, anyhow, bail};
+use anyhow::{Context, Result, bail};
 use indoc::formatdoc;
 use serde::{Deserialize, Serialize};
 use std::{
@@ -704,16 +704,9 @@ impl TranscriptionConfig {
                 continue; // grcov-excl-line
             }
 
-            // Extract the file name from the entry.
-            let path = entry.path();
-            let file_name = path
-                .file_name()
-                .and_then(|name| name.to_str())
-                .ok_or(anyhow!("Failed to get the file name"))?
-                .to_string();
-
             // Ignore any non-JSON files.
-            if !Path::new(&file_name)
+            let path = entry.path();
+            if !path
                 .extension()
                 .is_some_and(|ext| ext.eq_ignore_ascii_case("json"))
             {
-- 
2.43.0


From d3e1de002a15d0af6bd14fce2efbfe3a9b37b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:26 +0000
Subject: [PATCH 26/30] fix: search each unit once when finding dependencies at
 a depth

---
 src/scheduler/data.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/scheduler/data.rs b/src/scheduler/data.rs
index 6943a0e..5442f93 100644
--- a/src/scheduler/data.rs
+++ b/src/scheduler/data.rs
@@ -3,7 +3,7 @@
 use anyhow::{Ok, Result, anyhow};
 use chrono::{DateTime, Utc};
 use parking_lot::RwLock;
-use std::sync::Arc;
+use std::{collections::HashSet, sync::Arc};
 use ustr::{Ustr, UstrMap, UstrSet};
 
 use crate::{
@@ -174,11 +174,16 @@ impl SchedulerData {
     /// Returns all the dependencies of the unit with the given ID at the given depth.
     #[must_use]
     pub fn get_dependencies_at_depth(&self, unit_id: Ustr, depth: usize) -> Vec<Ustr> {
-        // Search for the dependencies at the given depth.
+        // Search for the dependencies at the given depth. Units found at a depth along more than one
+        // path are only searched once, as the number of paths can grow exponentially.
         let mut dependencies = vec![];
+        let mut visited = HashSet::new();
         let mut stack = vec![(unit_id, 0)];
         let graph = self.unit_graph.read();
         while let Some((candidate_id, candidate_depth)) = stack.pop() {
+            if !visited.insert((candidate_id, candidate_depth)) {
+                continue;
+            }
             if candidate_depth == depth {
                 // Reached the end of the search.
                 dependencies.push(candidate_id);
-- 
2.43.0


From 707a376eed2748907b71cdbe67b0acc7b67d3eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:26 +0000
Subject: [PATCH 27/30] fix: visit each unit once when following superseding
 units

---
 src/scheduler/unit_scorer.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index f32393e..2cbdcc7 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -387,16 +387,20 @@ impl UnitScorer {
     }
 
     /// Recursively check if each superseding unit has itself been superseded by another unit and
-    /// replace them from the original set with those units.
-    fn replace_superseding(&self, superseding_ids: &UstrSet) -> UstrSet {
+    /// replace them from the original set with those units. Units that were already visited are
+    /// skipped because their replacements are already part of the final set.
+    fn replace_superseding(&self, superseding_ids: &UstrSet, visited: &mut UstrSet) -> UstrSet {
         let mut result = UstrSet::default();
         for id in superseding_ids.iter().copied() {
+            if !visited.insert(id) {
+                continue;
+            }
             let superseding = self.data.get_superseding(id);
             if let Some(superseding) = superseding {
                 // The unit has some superseding units of its own. If the unit has been superseded
                 // by them, recursively call this function. Otherwise, add the unit to the result.
                 if self.is_superseded(id, &superseding) {
-                    result.extend(self.replace_superseding(&superseding));
+                    result.extend(self.replace_superseding(&superseding, visited));
                 } else {
                     result.insert(id);
                 }
@@ -412,7 +416,7 @@ impl UnitScorer {
     /// superseded.
     pub(super) fn get_superseding_recursive(&self, unit_id: Ustr) -> Option<UstrSet> {
         let superseding_ids = self.data.get_superseding(unit_id);
-        superseding_ids.map(|ids| self.replace_superseding(&ids))
+        superseding_ids.map(|ids| self.replace_superseding(&ids, &mut UstrSet::default()))
     }
 
     /// Returns the average score of all the exercises in the given lesson.
-- 
2.43.0


From 668016ec92bc92e3450c60483b30dc43bb6b4335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:27 +0000
Subject: [PATCH 28/30] fix: include courses without lessons in the DOT graph

---
 src/graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 39c4a3d..db35fcc 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -709,7 +709,12 @@ impl UnitGraph for InMemoryUnitGraph {
     fn generate_dot_graph(&self, courses_only: bool) -> String {
         // Initialize the output with the first line of the file.
         let mut output = String::from("digraph dependent_graph {\n");
-        let mut courses = self.course_lesson_map.keys().copied().collect::<Vec<_>>();
+        let mut courses = self
+            .type_map
+            .iter()
+            .filter(|(_, unit_type)| **unit_type == UnitType::Course)
+            .map(|(course_id, _)| *course_id)
+            .collect::<Vec<_>>();
         courses.sort();
 
         // Add each course to the DOT graph.
-- 
2.43.0


From 049fe8ab0fe1d6bfe69c2a7a29e8884ce7efe584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:28 +0000
Subject: [PATCH 29/30] fix: forward set_encompasing_equals_dependency to the
 graph

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0b71dce..96d072d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -724,7 +724,7 @@ impl UnitGraph for Trane {
     }
 
     fn set_encompasing_equals_dependency(&mut self) {
-        self.unit_graph.write().encompasing_equals_dependency();
+        self.unit_graph.write().set_encompasing_equals_dependency();
     }
 
     fn encompasing_equals_dependency(&self) -> bool {
-- 
2.43.0


From fceee41bba011ff0151d2a06f480225bb3a0cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:56 +0000
Subject: [PATCH 30/30] fix: leave the graph unchanged when adding a lesson or
 exercise fails

---
 src/graph.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index db35fcc..666ba88 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -293,10 +293,15 @@ impl InMemoryUnitGraph {
             !self.type_map.contains_key(&lesson_id),
             "lesson with ID {lesson_id} already exists",
         );
+        ensure!(
+            lesson_id != course_id,
+            "lesson with ID {lesson_id} cannot have the same ID as its course",
+        );
 
-        // Add the course and lessons to the type map.
-        self.update_unit_type(lesson_id, UnitType::Lesson)?;
+        // Add the course and lessons to the type map. The course goes first so that the lesson is not
+        // added if the course is invalid.
         self.update_unit_type(course_id, UnitType::Course)?;
+        self.update_unit_type(lesson_id, UnitType::Lesson)?;
 
         // Update the map of lesson to course and course to lessons.
         self.lesson_course_map.insert(lesson_id, course_id);
@@ -311,10 +316,15 @@ impl InMemoryUnitGraph {
             !self.type_map.contains_key(&exercise_id),
             "exercise with ID {exercise_id} already exists",
         );
+        ensure!(
+            exercise_id != lesson_id,
+            "exercise with ID {exercise_id} cannot have the same ID as its lesson",
+        );
 
-        // Add the exercise and lesson to the type map.
-        self.update_unit_type(exercise_id, UnitType::Exercise)?;
+        // Add the exercise and lesson to the type map. The lesson goes first so that the exercise is
+        // not added if the lesson is invalid.
         self.update_unit_type(lesson_id, UnitType::Lesson)?;
+        self.update_unit_type(exercise_id, UnitType::Exercise)?;
 
         // Update the map of exercise to lesson and lesson to exercises.
         Arc::make_mut(self.lesson_exercise_map.entry(lesson_id).or_default()).insert(exercise_id);
-- 
2.43.0

