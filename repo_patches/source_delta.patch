From a26969eb259bc1f532a13f84e19a7a7ec22bd647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 01/29] fix: a counter point that is ignored or refused no
 longer counts as a reset

---
 crates/counter-agg/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/counter-agg/src/lib.rs b/crates/counter-agg/src/lib.rs
index eafeca1..1e6f9ae 100644
--- a/crates/counter-agg/src/lib.rs
+++ b/crates/counter-agg/src/lib.rs
@@ -360,13 +360,18 @@ impl CounterSummaryBuilder {
 
     /// expects time-ordered input
     pub fn add_point(&mut self, incoming: &TSPoint) -> Result<(), CounterError> {
-        self.0.reset(incoming);
+        // a point that is out of order or repeats a timestamp is not used, so it can't reset the counter
+        if incoming.ts > self.0.last.ts {
+            self.0.reset(incoming);
+        }
         self.0.add_point(incoming)
     }
 
     /// combining can only happen for disjoint time ranges
     pub fn combine(&mut self, incoming: &MetricSummary) -> Result<(), CounterError> {
-        self.0.reset(&incoming.first);
+        if incoming.first.ts > self.0.last.ts {
+            self.0.reset(&incoming.first);
+        }
         self.0.combine(incoming)
     }
 
-- 
2.43.0


From d31515675fea6a72aa13751945a11595464165a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 02/29] verif: re-export private modules under cfg(verif)

---
 extension/src/lib.rs   | 16 ++++++++++++++++
 extension/src/nmost.rs |  8 ++++++++
 2 files changed, 24 insertions(+)

diff --git a/extension/src/lib.rs b/extension/src/lib.rs
index 59cdc34..4a7ad5f 100644
--- a/extension/src/lib.rs
+++ b/extension/src/lib.rs
@@ -80,3 +80,19 @@ pub mod pg_test {
         vec![]
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    pub mod raw {
+        pub use crate::raw::*;
+    }
+    pub mod datum_utils {
+        pub use crate::datum_utils::*;
+    }
+    pub mod duration {
+        pub use crate::duration::*;
+    }
+    pub mod palloc {
+        pub use crate::palloc::*;
+    }
+}
diff --git a/extension/src/nmost.rs b/extension/src/nmost.rs
index 018e886..3627dbd 100644
--- a/extension/src/nmost.rs
+++ b/extension/src/nmost.rs
@@ -281,3 +281,11 @@ fn nmost_by_rollup_trans_function<T: Ord + Copy>(
         })
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    pub use super::{
+        max_by_float::*, max_by_int::*, max_by_time::*, max_float::*, max_int::*, max_time::*,
+        min_by_float::*, min_by_int::*, min_by_time::*, min_float::*, min_int::*, min_time::*,
+    };
+}
-- 
2.43.0


From 2396ec5587d2a11b5d19f355b4aa4f6423226813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:43 +0000
Subject: [PATCH 03/29] fix: rollup of n-most aggregates keeps values while
 there is room

Rolling up stopped at the first value not better than the worst one kept so far,
even when fewer than capacity values had been kept.
---
 extension/src/nmost.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/extension/src/nmost.rs b/extension/src/nmost.rs
index 3627dbd..8ed4a34 100644
--- a/extension/src/nmost.rs
+++ b/extension/src/nmost.rs
@@ -55,6 +55,10 @@ impl<T: Ord> NMostTransState<T> {
         self.heap.push(new_val)
     }
 
+    fn is_full(&self) -> bool {
+        self.heap.len() == self.capacity
+    }
+
     fn belongs_in_heap(&self, val: &T) -> bool {
         // Note that this will actually be '>' if T is a Reverse<...> type
         val < self.heap.peek().unwrap()
@@ -102,7 +106,7 @@ fn nmost_rollup_trans_function<T: Ord + Copy>(
             if let Some(mut state) = state {
                 for val in sorted_vals {
                     // The values are sorted, so as soon as we find one that shouldn't be added, we're done
-                    if !state.belongs_in_heap(val) {
+                    if state.is_full() && !state.belongs_in_heap(val) {
                         return Some(state);
                     }
                     state.new_entry(*val);
@@ -267,7 +271,11 @@ fn nmost_by_rollup_trans_function<T: Ord + Copy>(
                     .zip(datum_store.clone().into_anyelement_iter())
                 {
                     // The values are sorted, so as soon as we find one that shouldn't be added, we're done
-                    if !state.values.belongs_in_heap(&(*val, state.values.capacity)) {
+                    if state.values.is_full()
+                        && !state
+                            .values
+                            .belongs_in_heap(&(*val, state.values.capacity))
+                    {
                         return Some(state);
                     }
                     state.new_entry(*val, element);
-- 
2.43.0


From 76d9a6322aae5d31c4347daebd975670a10a03e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:24 +0000
Subject: [PATCH 04/29] fix: mcv_agg keeps enough counters to find the single
 most common value

---
 extension/src/frequency.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index b99abc9..efb66ae 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -220,7 +220,12 @@ impl SpaceSavingTransState {
         }
 
         let prob_eq_n = zeta_eq_n(skew, nval as u64);
-        let prob_lt_n = zeta_le_n(skew, nval as u64 - 1);
+        // gen_harmonic(0, _) is 1, not the empty sum
+        let prob_lt_n = if nval == 1 {
+            0.0
+        } else {
+            zeta_le_n(skew, nval as u64 - 1)
+        };
 
         SpaceSavingTransState {
             entries: vec![],
-- 
2.43.0


From 51074a1f27fba796793c200d4aeaeed9f4b3f4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:24 +0000
Subject: [PATCH 05/29] verif: expose the final functions of frequency
 aggregates under cfg(verif)

---
 extension/src/frequency.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index efb66ae..ff44667 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -2769,3 +2769,17 @@ mod tests {
         });
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    pub fn finish(state: Internal) -> Option<SpaceSavingAggregate<'static>> {
+        space_saving_final(state, std::ptr::null_mut())
+    }
+    pub fn finish_bigint(state: Internal) -> Option<SpaceSavingBigIntAggregate<'static>> {
+        space_saving_bigint_final(state, std::ptr::null_mut())
+    }
+    pub fn finish_text(state: Internal) -> Option<SpaceSavingTextAggregate<'static>> {
+        space_saving_text_final(state, std::ptr::null_mut())
+    }
+}
-- 
2.43.0


From 1694c72de3e1bf3efae7dfd66f018a03f5e2533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:28 +0000
Subject: [PATCH 06/29] fix: trimming a heartbeat aggregate to a range without
 live intervals

---
 extension/src/heartbeat_agg.rs | 82 ++++++++++++++++------------------
 1 file changed, 39 insertions(+), 43 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index 2bb8b50..939ba70 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -114,6 +114,15 @@ impl HeartbeatTransState {
     }
 
     fn combine_intervals(&mut self, new_intervals: Vec<(i64, i64)>) {
+        // An aggregate that was trimmed to a dead range has no intervals
+        if new_intervals.is_empty() {
+            return;
+        }
+        if self.liveness.is_empty() {
+            self.liveness = new_intervals;
+            return;
+        }
+
         // Optimized path for nonoverlapping, ordered inputs
         if self.last < new_intervals.first().unwrap().0 {
             let mut new_intervals = new_intervals.into_iter();
@@ -219,57 +228,43 @@ impl HeartbeatAgg<'_> {
             error!("Can not query beyond the original aggregate bounds");
         }
 
+        let start_time = start.unwrap_or(self.start_time);
+        let end_time = end.unwrap_or(self.end_time);
+
         let mut starts: Vec<i64> = vec![];
         let mut ends: Vec<i64> = vec![];
+        let mut new_last = i64::MIN;
         for i in 0..self.num_intervals as usize {
-            starts.push(self.interval_starts.slice()[i]);
-            ends.push(self.interval_ends.slice()[i]);
-        }
-
-        let low_idx = if let Some(start) = start {
-            let mut idx = 0;
-            while idx < self.num_intervals as usize && ends[idx] < start {
-                idx += 1;
-            }
-            if starts[idx] < start {
-                starts[idx] = start;
-            }
-            idx
-        } else {
-            0
-        };
-
-        let mut new_last = None;
-        let high_idx = if let Some(end) = end {
-            if self.num_intervals > 0 {
-                let mut idx = self.num_intervals as usize - 1;
-                while idx > low_idx && starts[idx] > end {
-                    idx -= 1;
-                }
-                new_last = Some(ends[idx] - self.interval_len);
-                if ends[idx] > end {
-                    if end < new_last.unwrap() {
-                        new_last = Some(end);
-                    }
-                    ends[idx] = end;
+            let interval_start = self.interval_starts.slice()[i];
+            let interval_end = self.interval_ends.slice()[i];
+            if interval_start < end_time {
+                // The last interval may have been cut short at the end of the aggregate
+                let last = if i + 1 == self.num_intervals as usize {
+                    self.last_seen
+                } else {
+                    interval_end - self.interval_len
+                };
+                new_last = min(last, end_time);
+                if interval_end > start_time {
+                    starts.push(max(interval_start, start_time));
+                    ends.push(min(interval_end, end_time));
                 }
-                idx
-            } else {
-                self.num_intervals as usize - 1
             }
-        } else {
-            self.num_intervals as usize - 1
-        };
+        }
 
         unsafe {
             flatten!(HeartbeatAgg {
-                start_time: start.unwrap_or(self.start_time),
-                end_time: end.unwrap_or(self.end_time),
-                last_seen: new_last.unwrap_or(self.last_seen),
+                start_time,
+                end_time,
+                last_seen: if end.is_some() {
+                    new_last
+                } else {
+                    self.last_seen
+                },
                 interval_len: self.interval_len,
-                num_intervals: (high_idx - low_idx + 1) as u64,
-                interval_starts: starts[low_idx..=high_idx].into(),
-                interval_ends: ends[low_idx..=high_idx].into(),
+                num_intervals: starts.len() as u64,
+                interval_starts: starts.into(),
+                interval_ends: ends.into(),
             })
         }
     }
@@ -320,8 +315,9 @@ impl HeartbeatAgg<'_> {
             self.interval_starts.as_owned()[0] = self.start_time;
         } else {
             let start = self.start_time;
+            let end = min(pred_end, self.end_time);
             self.interval_starts.as_owned().insert(0, start);
-            self.interval_ends.as_owned().insert(0, pred_end);
+            self.interval_ends.as_owned().insert(0, end);
             self.num_intervals += 1;
         }
     }
-- 
2.43.0


From 68296170e2bee64823f36852f2665c0c5ea2300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:28 +0000
Subject: [PATCH 07/29] fix: heartbeat trim_to accessor with a range that ends
 at timestamp zero

---
 extension/src/heartbeat_agg.rs           | 2 +-
 extension/src/heartbeat_agg/accessors.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index 939ba70..9d2ebce 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -585,7 +585,7 @@ pub fn arrow_heartbeat_agg_trim_to(
     agg: HeartbeatAgg<'static>,
     accessor: HeartbeatTrimToAccessor,
 ) -> HeartbeatAgg<'static> {
-    let end = if accessor.end == 0 {
+    let end = if accessor.end == accessors::NO_END_MARKER {
         None
     } else {
         Some(accessor.end)
diff --git a/extension/src/heartbeat_agg/accessors.rs b/extension/src/heartbeat_agg/accessors.rs
index dc30a51..ebcd710 100644
--- a/extension/src/heartbeat_agg/accessors.rs
+++ b/extension/src/heartbeat_agg/accessors.rs
@@ -122,6 +122,9 @@ impl<'a> HeartbeatInterpolateAccessor<'a> {
     }
 }
 
+/// Used to indicate no duration was specified. Zero would be a valid timestamp.
+pub(super) const NO_END_MARKER: i64 = i64::MIN;
+
 pg_type! {
     struct HeartbeatTrimToAccessor {
         start : i64,
@@ -141,7 +144,7 @@ fn heartbeat_agg_trim_to_accessor(
 ) -> HeartbeatTrimToAccessor {
     let end = duration
         .map(|intv| crate::datum_utils::ts_interval_sum_to_ms(&start, &intv))
-        .unwrap_or(0);
+        .unwrap_or(NO_END_MARKER);
     let start = i64::from(start);
 
     crate::build! {
-- 
2.43.0


From 0f1a271ecfb12955c76bdbf204f35f93e5d67083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:28 +0000
Subject: [PATCH 08/29] verif: expose heartbeat accessors under cfg(verif)

---
 extension/src/heartbeat_agg.rs           | 12 ++++++++++++
 extension/src/heartbeat_agg/accessors.rs | 24 ++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index 9d2ebce..7a0da4a 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -1937,3 +1937,15 @@ mod tests {
         });
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    pub fn interpolate(
+        agg: HeartbeatAgg<'static>,
+        pred: Option<HeartbeatAgg<'static>>,
+    ) -> HeartbeatAgg<'static> {
+        interpolate_heartbeat_agg(agg, pred)
+    }
+    pub use accessors::verif::*;
+}
diff --git a/extension/src/heartbeat_agg/accessors.rs b/extension/src/heartbeat_agg/accessors.rs
index ebcd710..4d84d83 100644
--- a/extension/src/heartbeat_agg/accessors.rs
+++ b/extension/src/heartbeat_agg/accessors.rs
@@ -154,3 +154,27 @@ fn heartbeat_agg_trim_to_accessor(
         }
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    pub fn uptime_accessor(
+        prev: Option<HeartbeatAgg<'_>>,
+    ) -> HeartbeatInterpolatedUptimeAccessor<'_> {
+        heartbeat_agg_interpolated_uptime_accessor(prev)
+    }
+    pub fn downtime_accessor(
+        prev: Option<HeartbeatAgg<'_>>,
+    ) -> HeartbeatInterpolatedDowntimeAccessor<'_> {
+        heartbeat_agg_interpolated_downtime_accessor(prev)
+    }
+    pub fn interpolate_accessor(prev: Option<HeartbeatAgg<'_>>) -> HeartbeatInterpolateAccessor<'_> {
+        heartbeat_agg_interpolate_accessor(prev)
+    }
+    pub fn trim_accessor(
+        start: crate::raw::TimestampTz,
+        duration: Option<crate::raw::Interval>,
+    ) -> HeartbeatTrimToAccessor {
+        heartbeat_agg_trim_to_accessor(start, duration)
+    }
+}
-- 
2.43.0


From a712c859afb9dfc227d24d8dae154167d2f6fcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 09/29] verif: expose state_agg functions under cfg(verif)

---
 extension/src/state_aggregate.rs           | 29 +++++++++++++
 extension/src/state_aggregate/accessors.rs | 47 ++++++++++++++++++++++
 extension/src/state_aggregate/rollup.rs    | 11 +++++
 3 files changed, 87 insertions(+)

diff --git a/extension/src/state_aggregate.rs b/extension/src/state_aggregate.rs
index 3f527a6..b99ad65 100644
--- a/extension/src/state_aggregate.rs
+++ b/extension/src/state_aggregate.rs
@@ -2772,3 +2772,32 @@ SELECT toolkit_experimental.duration_in('one', toolkit_experimental.compact_stat
         assert_eq!(agg.to_pg_bytes(), expected);
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    pub use accessors::verif::*;
+    pub fn int_trans(
+        state: pgrx::Internal,
+        ts: TimestampTz,
+        value: Option<i64>,
+    ) -> Option<pgrx::Internal> {
+        state_agg_int_trans(state, ts, value, std::ptr::null_mut())
+    }
+    pub fn compact_int_trans(
+        state: pgrx::Internal,
+        ts: TimestampTz,
+        value: Option<i64>,
+    ) -> Option<pgrx::Internal> {
+        compact_state_agg_int_trans(state, ts, value, std::ptr::null_mut())
+    }
+    pub fn compact_final(state: pgrx::Internal) -> Option<CompactStateAgg<'static>> {
+        compact_state_agg::compact_state_agg_finally_fn_outer(state, std::ptr::null_mut())
+    }
+    pub fn at(agg: StateAgg<'_>, point: TimestampTz) -> Option<String> {
+        state_at(agg, point)
+    }
+    pub fn at_int(agg: StateAgg<'_>, point: TimestampTz) -> Option<i64> {
+        state_at_int(agg, point)
+    }
+}
diff --git a/extension/src/state_aggregate/accessors.rs b/extension/src/state_aggregate/accessors.rs
index 1e7a7df..59ced33 100644
--- a/extension/src/state_aggregate/accessors.rs
+++ b/extension/src/state_aggregate/accessors.rs
@@ -335,3 +335,50 @@ fn accessor_state_agg_state_at_int(time: TimestampTz) -> AccessorStateAtInt {
         }
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    pub fn interpolated_int_timeline_accessor<'a>(
+        start: TimestampTz,
+        interval: Interval,
+        prev: Option<StateAgg<'a>>,
+    ) -> AccessorInterpolatedStateIntTimeline<'a> {
+        accessor_state_agg_interpolated_interpolated_state_int_timeline(start, interval, prev)
+    }
+    pub fn interpolated_duration_in_int_accessor<'a>(
+        state: i64,
+        start: TimestampTz,
+        interval: Interval,
+        prev: Option<StateAgg<'a>>,
+    ) -> AccessorInterpolatedDurationInInt<'a> {
+        accessor_state_agg_interpolated_interpolated_duration_in_int(state, start, interval, prev)
+    }
+    pub fn interpolated_int_periods_accessor<'a>(
+        state: i64,
+        start: TimestampTz,
+        interval: Interval,
+        prev: Option<StateAgg<'a>>,
+    ) -> AccessorInterpolatedStatePeriodsInt<'a> {
+        accessor_state_agg_interpolated_interpolated_state_periods_int(state, start, interval, prev)
+    }
+    pub fn duration_in_accessor(state: String) -> AccessorDurationIn<'static> {
+        accessor_state_agg_duration_in(state)
+    }
+    pub fn duration_in_int_accessor(state: i64) -> AccessorDurationInInt {
+        accessor_state_agg_duration_in_int(state)
+    }
+    pub fn duration_in_range_int_accessor(
+        state: i64,
+        start: TimestampTz,
+        interval: Option<Interval>,
+    ) -> AccessorDurationInRangeInt {
+        accessor_state_agg_duration_in_range_int(state, start, interval)
+    }
+    pub fn int_periods_accessor(state: i64) -> AccessorStatePeriodsInt {
+        accessor_state_agg_state_periods_int(state)
+    }
+    pub fn at_int_accessor(time: TimestampTz) -> AccessorStateAtInt {
+        accessor_state_agg_state_at_int(time)
+    }
+}
diff --git a/extension/src/state_aggregate/rollup.rs b/extension/src/state_aggregate/rollup.rs
index eed7162..4dd58fb 100644
--- a/extension/src/state_aggregate/rollup.rs
+++ b/extension/src/state_aggregate/rollup.rs
@@ -570,3 +570,14 @@ mod tests {
         assert_eq!(trans_state.values[0], expected.clone());
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    pub fn finish(state: Internal) -> Option<StateAgg<'static>> {
+        state_agg_rollup_final(state, std::ptr::null_mut())
+    }
+    pub fn compact_finish(state: Internal) -> Option<CompactStateAgg<'static>> {
+        compact_state_agg_rollup_final(state, std::ptr::null_mut())
+    }
+}
-- 
2.43.0


From 7a3f730b31d58fe56d5bb1ec31f12b09a66c3e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 10/29] verif: expose timevector pipeline functions under
 cfg(verif)

---
 extension/src/time_vector.rs          |  5 +++++
 extension/src/time_vector/pipeline.rs | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/extension/src/time_vector.rs b/extension/src/time_vector.rs
index 045e49c..7784e69 100644
--- a/extension/src/time_vector.rs
+++ b/extension/src/time_vector.rs
@@ -1047,3 +1047,8 @@ mod tests {
         })
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    pub use super::pipeline::verif::*;
+}
diff --git a/extension/src/time_vector/pipeline.rs b/extension/src/time_vector/pipeline.rs
index eb67eb7..6dfa2ba 100644
--- a/extension/src/time_vector/pipeline.rs
+++ b/extension/src/time_vector/pipeline.rs
@@ -515,3 +515,22 @@ mod tests {
         });
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    pub mod filter {
+        pub use super::super::filter::*;
+    }
+    pub mod map {
+        pub use super::super::map::*;
+    }
+    pub mod lambda {
+        pub use super::super::lambda::toolkit_experimental::*;
+        pub use super::super::lambda::*;
+    }
+    pub type Pipe = super::UnstableTimevectorPipeline<'static>;
+    pub use super::{
+        aggregation::*, arithmetic::*, arrow_add_unstable_element, arrow_run_pipeline, delta::*,
+        expansion::*, fill_to::*, lttb_pipeline_element, sort::*,
+    };
+}
-- 
2.43.0


From 881d5863810882dc27faf27965bb1f68fc5e4802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 11/29] fix: filtering a timevector keeps null marks with their
 points

---
 extension/src/time_vector/pipeline/filter.rs | 23 ++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/extension/src/time_vector/pipeline/filter.rs b/extension/src/time_vector/pipeline/filter.rs
index 2d8a794..dcb9ee5 100644
--- a/extension/src/time_vector/pipeline/filter.rs
+++ b/extension/src/time_vector/pipeline/filter.rs
@@ -52,8 +52,27 @@ pub fn filter_lambda_over_series(
     series: &mut Timevector_TSTZ_F64<'_>,
     mut func: impl FnMut(i64, f64) -> bool,
 ) {
-    series.points.as_owned().retain(|p| func(p.ts, p.val));
-    series.num_points = series.points.len() as _;
+    let mut points = Vec::with_capacity(series.num_points());
+    let mut null_val = Vec::with_capacity(series.num_points().div_ceil(8));
+    for (i, point) in series.points.iter().enumerate() {
+        if !func(point.ts, point.val) {
+            continue;
+        }
+        if points.len() % 8 == 0 {
+            null_val.push(0_u8);
+        }
+        // the null marks have to move along with their points
+        if series.is_null_val(i) {
+            null_val[points.len() / 8] |= 1 << (points.len() % 8);
+        }
+        points.push(point);
+    }
+    if null_val.iter().all(|bits| *bits == 0) {
+        series.flags &= !FLAG_HAS_NULLS;
+    }
+    series.num_points = points.len() as _;
+    series.points = points.into();
+    series.null_val = null_val.into();
 }
 
 #[cfg(any(test, feature = "pg_test"))]
-- 
2.43.0


From 5b15ea8e128aaa4980e36b3db6a17ea3b502ecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 12/29] fix: delta of an empty timevector is empty

---
 extension/src/time_vector/pipeline/delta.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/extension/src/time_vector/pipeline/delta.rs b/extension/src/time_vector/pipeline/delta.rs
index 933b829..0c56b14 100644
--- a/extension/src/time_vector/pipeline/delta.rs
+++ b/extension/src/time_vector/pipeline/delta.rs
@@ -37,15 +37,17 @@ pub fn timevector_delta<'s>(series: &Timevector_TSTZ_F64<'s>) -> Timevector_TSTZ
     }
 
     let mut it = series.iter();
-    let mut prev = it.next().unwrap().val;
     let mut delta_points = Vec::new();
 
-    for pt in it {
-        delta_points.push(TSPoint {
-            ts: pt.ts,
-            val: pt.val - prev,
-        });
-        prev = pt.val;
+    if let Some(first) = it.next() {
+        let mut prev = first.val;
+        for pt in it {
+            delta_points.push(TSPoint {
+                ts: pt.ts,
+                val: pt.val - prev,
+            });
+            prev = pt.val;
+        }
     }
 
     let nulls_len = delta_points.len().div_ceil(8);
-- 
2.43.0


From a01a12121b1b532497ebc42d16e706d7b6c0f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 13/29] fix: fill_to refuses intervals that are not positive

---
 extension/src/time_vector/pipeline/fill_to.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/time_vector/pipeline/fill_to.rs b/extension/src/time_vector/pipeline/fill_to.rs
index 1c0ff92..61a91d6 100644
--- a/extension/src/time_vector/pipeline/fill_to.rs
+++ b/extension/src/time_vector/pipeline/fill_to.rs
@@ -94,6 +94,10 @@ pub fn fill_to<'s>(
         _ => unreachable!(),
     };
 
+    if interval <= 0 {
+        panic!("The interval of fill_to must be greater than zero")
+    }
+
     if !series.is_sorted() {
         panic!("Timevector must be sorted prior to passing to fill_to")
     }
-- 
2.43.0


From c71499806cd3a02ddd66ac4bba1cee54d8e65ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 14/29] fix: a timevector mapped to unordered times is no
 longer marked as sorted

---
 extension/src/time_vector/pipeline/map.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extension/src/time_vector/pipeline/map.rs b/extension/src/time_vector/pipeline/map.rs
index 15e513e..73e8c55 100644
--- a/extension/src/time_vector/pipeline/map.rs
+++ b/extension/src/time_vector/pipeline/map.rs
@@ -82,6 +82,9 @@ pub fn map_lambda_over_series(
             val: new_val.unwrap_or(point.val),
         }
     }
+    if !only_val && !series.points.as_slice().is_sorted_by_key(|p| p.ts) {
+        series.flags &= !FLAG_IS_SORTED;
+    }
 }
 
 #[pg_extern(
-- 
2.43.0


From 65d38eae8b6bc5b158d1b9a8c4e2fece62aafc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 15/29] fix: lttb no longer overflows when averaging the times
 of a large bucket

---
 extension/src/lttb.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index ed44dff..cfc6cdd 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -277,7 +277,8 @@ pub fn lttb(data: &[TSPoint], threshold: usize) -> Cow<'_, [TSPoint]> {
 
     for i in 0..threshold - 2 {
         // Calculate point average for next bucket (containing c).
-        let mut avg_x = 0i64;
+        // the sum of the times of a large bucket does not fit into an i64
+        let mut avg_x = 0i128;
         let mut avg_y = 0f64;
 
         let avg_range_start = (((i + 1) as f64) * every) as usize + 1;
@@ -292,10 +293,10 @@ pub fn lttb(data: &[TSPoint], threshold: usize) -> Cow<'_, [TSPoint]> {
 
         for i in 0..(avg_range_end - avg_range_start) {
             let idx = avg_range_start + i;
-            avg_x += data[idx].ts;
+            avg_x += data[idx].ts as i128;
             avg_y += data[idx].val;
         }
-        avg_x /= avg_range_length as i64;
+        let avg_x = (avg_x / avg_range_length as i128) as i64;
         avg_y /= avg_range_length;
 
         // Get the range for this bucket.
@@ -364,7 +365,8 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
 
     for i in 0..threshold - 2 {
         // Calculate point average for next bucket (containing c).
-        let mut avg_x = 0i64;
+        // the sum of the times of a large bucket does not fit into an i64
+        let mut avg_x = 0i128;
         let mut avg_y = 0f64;
 
         let avg_range_start = (((i + 1) as f64) * every) as usize + 1;
@@ -380,10 +382,10 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
         for i in 0..(avg_range_end - avg_range_start) {
             let idx = avg_range_start + i;
             let point = data.get(idx).unwrap();
-            avg_x += point.ts;
+            avg_x += point.ts as i128;
             avg_y += point.val;
         }
-        avg_x /= avg_range_length as i64;
+        let avg_x = (avg_x / avg_range_length as i128) as i64;
         avg_y /= avg_range_length;
 
         // Get the range for this bucket.
-- 
2.43.0


From 102443ebbe027448448273a097ea6ab0c516b0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 16/29] verif: open the aggregates' private functions under
 cfg(verif)

---
 extension/src/asap.rs                         | 13 +++
 extension/src/counter_agg.rs                  | 31 +++++++
 extension/src/counter_agg/accessors.rs        | 24 ++++++
 extension/src/gauge_agg.rs                    | 84 +++++++++++++++++++
 extension/src/hyperloglog.rs                  | 13 +++
 extension/src/stats_agg.rs                    | 42 ++++++++++
 extension/src/tdigest.rs                      | 15 ++++
 extension/src/time_weighted_average.rs        | 14 ++++
 .../src/time_weighted_average/accessors.rs    | 25 ++++++
 extension/src/uddsketch.rs                    | 13 +++
 10 files changed, 274 insertions(+)

diff --git a/extension/src/asap.rs b/extension/src/asap.rs
index 2bffd8a..2ece031 100644
--- a/extension/src/asap.rs
+++ b/extension/src/asap.rs
@@ -411,3 +411,16 @@ mod tests {
         })
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    macro_rules! open {
+        ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
+            $(pub fn $f($($a: $t),*) -> $r { super::$f($($a),*) })*
+        };
+    }
+    open! {
+        asap_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<Timevector_TSTZ_F64<'static>>;
+    }
+}
diff --git a/extension/src/counter_agg.rs b/extension/src/counter_agg.rs
index 45d0db6..7e6ae1e 100644
--- a/extension/src/counter_agg.rs
+++ b/extension/src/counter_agg.rs
@@ -1860,3 +1860,34 @@ pub(crate) mod testing {
             ).unwrap();
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    pub use super::accessors::verif::*;
+    use super::*;
+    macro_rules! open {
+        ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
+            $(pub fn $f($($a: $t),*) -> $r { super::$f($($a),*) })*
+        };
+    }
+    open! {
+        counter_agg_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<CounterSummary>;
+        counter_agg_with_bounds(summary: CounterSummary, bounds: tstzrange) -> CounterSummary;
+        counter_agg_extrapolated_delta(summary: CounterSummary, method: &str) -> Option<f64>;
+        counter_agg_extrapolated_rate(summary: CounterSummary, method: &str) -> Option<f64>;
+        counter_agg_interpolated_delta(
+            summary: CounterSummary,
+            start: crate::raw::TimestampTz,
+            duration: crate::raw::Interval,
+            prev: Option<CounterSummary>,
+            next: Option<CounterSummary>
+        ) -> f64;
+        counter_agg_interpolated_rate(
+            summary: CounterSummary,
+            start: crate::raw::TimestampTz,
+            duration: crate::raw::Interval,
+            prev: Option<CounterSummary>,
+            next: Option<CounterSummary>
+        ) -> Option<f64>;
+    }
+}
diff --git a/extension/src/counter_agg/accessors.rs b/extension/src/counter_agg/accessors.rs
index 1d2d379..c80c9d1 100644
--- a/extension/src/counter_agg/accessors.rs
+++ b/extension/src/counter_agg/accessors.rs
@@ -89,3 +89,27 @@ fn counter_interpolated_delta_accessor(
         }
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    macro_rules! open {
+        ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
+            $(pub fn $f($($a: $t),*) -> $r { super::$f($($a),*) })*
+        };
+    }
+    open! {
+        counter_interpolated_rate_accessor(
+            start: crate::raw::TimestampTz,
+            duration: crate::raw::Interval,
+            prev: Option<CounterSummary>,
+            next: Option<CounterSummary>
+        ) -> CounterInterpolatedRateAccessor;
+        counter_interpolated_delta_accessor(
+            start: crate::raw::TimestampTz,
+            duration: crate::raw::Interval,
+            prev: Option<CounterSummary>,
+            next: Option<CounterSummary>
+        ) -> CounterInterpolatedDeltaAccessor;
+    }
+}
diff --git a/extension/src/gauge_agg.rs b/extension/src/gauge_agg.rs
index e65097d..5892957 100644
--- a/extension/src/gauge_agg.rs
+++ b/extension/src/gauge_agg.rs
@@ -1119,3 +1119,87 @@ mod tests {
         });
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    macro_rules! open {
+        ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
+            $(pub fn $f($($a: $t),*) -> $r { super::$f($($a),*) })*
+        };
+    }
+    open! {
+        delta(summary: GaugeSummary) -> f64;
+        rate(summary: GaugeSummary) -> Option<f64>;
+        time_delta(summary: GaugeSummary) -> f64;
+        irate_left(summary: GaugeSummary) -> Option<f64>;
+        irate_right(summary: GaugeSummary) -> Option<f64>;
+        idelta_left(summary: GaugeSummary) -> f64;
+        idelta_right(summary: GaugeSummary) -> f64;
+        extrapolated_delta(summary: GaugeSummary) -> Option<f64>;
+        extrapolated_rate(summary: GaugeSummary) -> Option<f64>;
+        num_elements(summary: GaugeSummary) -> i64;
+        num_changes(summary: GaugeSummary) -> i64;
+        slope(summary: GaugeSummary) -> Option<f64>;
+        intercept(summary: GaugeSummary) -> Option<f64>;
+        corr(summary: GaugeSummary) -> Option<f64>;
+        gauge_zero_time(summary: GaugeSummary) -> Option<crate::raw::TimestampTz>;
+        arrow_delta(sketch: GaugeSummary, accessor: AccessorDelta) -> f64;
+        arrow_gauge_agg_rate(sketch: GaugeSummary, accessor: AccessorRate) -> Option<f64>;
+        arrow_time_delta(sketch: GaugeSummary, accessor: AccessorTimeDelta) -> f64;
+        arrow_irate_left(sketch: GaugeSummary, accessor: AccessorIrateLeft) -> Option<f64>;
+        arrow_irate_right(sketch: GaugeSummary, accessor: AccessorIrateRight) -> Option<f64>;
+        arrow_idelta_left(sketch: GaugeSummary, accessor: AccessorIdeltaLeft) -> f64;
+        arrow_idelta_right(sketch: GaugeSummary, accessor: AccessorIdeltaRight) -> f64;
+        arrow_with_bounds(sketch: GaugeSummary, accessor: AccessorWithBounds) -> GaugeSummary;
+        arrow_extrapolated_delta(sketch: GaugeSummary, accessor: AccessorExtrapolatedDelta) -> Option<f64>;
+        arrow_extrapolated_rate(sketch: GaugeSummary, accessor: AccessorExtrapolatedRate) -> Option<f64>;
+        arrow_num_elements(sketch: GaugeSummary, accessor: AccessorNumElements) -> i64;
+        arrow_num_changes(sketch: GaugeSummary, accessor: AccessorNumChanges) -> i64;
+        arrow_slope(sketch: GaugeSummary, accessor: AccessorSlope) -> Option<f64>;
+        arrow_intercept(sketch: GaugeSummary, accessor: AccessorIntercept) -> Option<f64>;
+        arrow_corr(sketch: GaugeSummary, accessor: AccessorCorr) -> Option<f64>;
+        arrow_zero_time(sketch: GaugeSummary, accessor: AccessorCounterZeroTime) -> Option<crate::raw::TimestampTz>;
+        with_bounds(summary: GaugeSummary, bounds: tstzrange) -> GaugeSummary;
+        gauge_summary_trans_serialize(state: Internal) -> bytea;
+        gauge_summary_trans_deserialize(bytes: bytea, internal: Internal) -> Option<Internal>;
+        gauge_agg_trans(
+            state: Internal,
+            ts: Option<crate::raw::TimestampTz>,
+            val: Option<f64>,
+            bounds: Option<tstzrange>,
+            fcinfo: pg_sys::FunctionCallInfo
+        ) -> Option<Internal>;
+        gauge_agg_trans_no_bounds(
+            state: Internal,
+            ts: Option<crate::raw::TimestampTz>,
+            val: Option<f64>,
+            fcinfo: pg_sys::FunctionCallInfo
+        ) -> Option<Internal>;
+        gauge_agg_summary_trans(
+            state: Internal,
+            value: Option<GaugeSummary>,
+            fcinfo: pg_sys::FunctionCallInfo
+        ) -> Option<Internal>;
+        gauge_agg_combine(
+            state1: Internal,
+            state2: Internal,
+            fcinfo: pg_sys::FunctionCallInfo
+        ) -> Option<Internal>;
+        gauge_agg_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<GaugeSummary>;
+        interpolated_delta(
+            summary: GaugeSummary,
+            start: crate::raw::TimestampTz,
+            interval: crate::raw::Interval,
+            prev: Option<GaugeSummary>,
+            next: Option<GaugeSummary>
+        ) -> f64;
+        interpolated_rate(
+            summary: GaugeSummary,
+            start: crate::raw::TimestampTz,
+            interval: crate::raw::Interval,
+            prev: Option<GaugeSummary>,
+            next: Option<GaugeSummary>
+        ) -> Option<f64>;
+    }
+}
diff --git a/extension/src/hyperloglog.rs b/extension/src/hyperloglog.rs
index 0332574..1a4cbf7 100644
--- a/extension/src/hyperloglog.rs
+++ b/extension/src/hyperloglog.rs
@@ -1050,3 +1050,16 @@ mod tests {
 
     //TODO test continuous aggregates
 }
+
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    macro_rules! open {
+        ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
+            $(pub fn $f($($a: $t),*) -> $r { super::$f($($a),*) })*
+        };
+    }
+    open! {
+        hyperloglog_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<HyperLogLog<'static>>;
+    }
+}
diff --git a/extension/src/stats_agg.rs b/extension/src/stats_agg.rs
index f025fc0..0d74c48 100644
--- a/extension/src/stats_agg.rs
+++ b/extension/src/stats_agg.rs
@@ -2462,3 +2462,45 @@ INSERT INTO prices (
         assert!(result);
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    macro_rules! open {
+        ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
+            $(pub fn $f($($a: $t),*) -> $r { super::$f($($a),*) })*
+        };
+    }
+    open! {
+        stats1d_average(summary: StatsSummary1D) -> Option<f64>;
+        stats1d_sum(summary: StatsSummary1D) -> Option<f64>;
+        stats1d_stddev(summary: Option<StatsSummary1D>, method: &str) -> Option<f64>;
+        stats1d_variance(summary: Option<StatsSummary1D>, method: &str) -> Option<f64>;
+        stats1d_skewness(summary: StatsSummary1D, method: &str) -> Option<f64>;
+        stats1d_kurtosis(summary: StatsSummary1D, method: &str) -> Option<f64>;
+        stats1d_num_vals(summary: StatsSummary1D) -> i64;
+        stats2d_average_x(summary: StatsSummary2D) -> Option<f64>;
+        stats2d_average_y(summary: StatsSummary2D) -> Option<f64>;
+        stats2d_sum_x(summary: StatsSummary2D) -> Option<f64>;
+        stats2d_sum_y(summary: StatsSummary2D) -> Option<f64>;
+        stats2d_slope(summary: StatsSummary2D) -> Option<f64>;
+        stats2d_corr(summary: StatsSummary2D) -> Option<f64>;
+        stats2d_intercept(summary: StatsSummary2D) -> Option<f64>;
+        stats2d_x_intercept(summary: StatsSummary2D) -> Option<f64>;
+        stats2d_determination_coeff(summary: StatsSummary2D) -> Option<f64>;
+        stats2d_num_vals(summary: StatsSummary2D) -> i64;
+        stats2d_stddev_x(summary: Option<StatsSummary2D>, method: &str) -> Option<f64>;
+        stats2d_stddev_y(summary: Option<StatsSummary2D>, method: &str) -> Option<f64>;
+        stats2d_variance_x(summary: Option<StatsSummary2D>, method: &str) -> Option<f64>;
+        stats2d_variance_y(summary: Option<StatsSummary2D>, method: &str) -> Option<f64>;
+        stats2d_covar(summary: Option<StatsSummary2D>, method: &str) -> Option<f64>;
+        stats2d_skewness_x(summary: StatsSummary2D, method: &str) -> Option<f64>;
+        stats2d_skewness_y(summary: StatsSummary2D, method: &str) -> Option<f64>;
+        stats2d_kurtosis_x(summary: StatsSummary2D, method: &str) -> Option<f64>;
+        stats2d_kurtosis_y(summary: StatsSummary2D, method: &str) -> Option<f64>;
+        stats1d_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<StatsSummary1D>;
+        stats1d_tf_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<StatsSummary1D>;
+        stats2d_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<StatsSummary2D>;
+        stats2d_tf_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<StatsSummary2D>;
+    }
+}
diff --git a/extension/src/tdigest.rs b/extension/src/tdigest.rs
index 07d9f1a..af7fc52 100644
--- a/extension/src/tdigest.rs
+++ b/extension/src/tdigest.rs
@@ -807,3 +807,18 @@ mod tests {
         });
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    macro_rules! open {
+        ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
+            $(pub fn $f($($a: $t),*) -> $r { super::$f($($a),*) })*
+        };
+    }
+    open! {
+        tdigest_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<TDigest<'static>>;
+        tdigest_compound_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<TDigest<'static>>;
+        tdigest_compound_serialize(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<bytea>;
+    }
+}
diff --git a/extension/src/time_weighted_average.rs b/extension/src/time_weighted_average.rs
index 6320a96..f5a6139 100644
--- a/extension/src/time_weighted_average.rs
+++ b/extension/src/time_weighted_average.rs
@@ -1103,3 +1103,17 @@ mod tests {
         });
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    pub use super::accessors::verif::*;
+    use super::*;
+    macro_rules! open {
+        ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
+            $(pub fn $f($($a: $t),*) -> $r { super::$f($($a),*) })*
+        };
+    }
+    open! {
+        time_weight_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<TimeWeightSummary>;
+    }
+}
diff --git a/extension/src/time_weighted_average/accessors.rs b/extension/src/time_weighted_average/accessors.rs
index b88c247..fac0083 100644
--- a/extension/src/time_weighted_average/accessors.rs
+++ b/extension/src/time_weighted_average/accessors.rs
@@ -113,3 +113,28 @@ fn time_weight_interpolated_integral_accessor(
         }
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    macro_rules! open {
+        ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
+            $(pub fn $f($($a: $t),*) -> $r { super::$f($($a),*) })*
+        };
+    }
+    open! {
+        time_weight_interpolated_average_accessor(
+            start: crate::raw::TimestampTz,
+            duration: crate::raw::Interval,
+            prev: Option<TimeWeightSummary>,
+            next: Option<TimeWeightSummary>
+        ) -> TimeWeightInterpolatedAverageAccessor;
+        time_weight_interpolated_integral_accessor(
+            start: crate::raw::TimestampTz,
+            interval: crate::raw::Interval,
+            prev: Option<TimeWeightSummary>,
+            next: Option<TimeWeightSummary>,
+            unit: String
+        ) -> TimeWeightInterpolatedIntegralAccessor;
+    }
+}
diff --git a/extension/src/uddsketch.rs b/extension/src/uddsketch.rs
index 0c6f1e3..c42662f 100644
--- a/extension/src/uddsketch.rs
+++ b/extension/src/uddsketch.rs
@@ -1310,3 +1310,16 @@ mod tests {
         })
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    macro_rules! open {
+        ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
+            $(pub fn $f($($a: $t),*) -> $r { super::$f($($a),*) })*
+        };
+    }
+    open! {
+        uddsketch_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<UddSketch<'static>>;
+    }
+}
-- 
2.43.0


From 7f3172703d78fd452d36d2440795153c69468fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 17/29] fix: keep the start bound when a time-weight summary
 gets both bounds

TimeWeightSummary::with_bounds extended the original summary to the end, so the
extension to the start was lost whenever both bounds were given.
---
 crates/time-weighted-average/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/time-weighted-average/src/lib.rs b/crates/time-weighted-average/src/lib.rs
index 6e54786..8c8c8db 100644
--- a/crates/time-weighted-average/src/lib.rs
+++ b/crates/time-weighted-average/src/lib.rs
@@ -129,7 +129,7 @@ impl TimeWeightSummary {
         }
 
         if let Some((end, next)) = end_next {
-            calc = self.with_next(end, next)?
+            calc = calc.with_next(end, next)?
         }
         Ok(calc)
     }
-- 
2.43.0


From 8f8dcb9c0dca5738f4c539cd8767b848020e7d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 18/29] verif: open the SQL accessor functions under cfg(verif)

---
 extension/src/accessors.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/extension/src/accessors.rs b/extension/src/accessors.rs
index c7b260b..3475aa5 100644
--- a/extension/src/accessors.rs
+++ b/extension/src/accessors.rs
@@ -656,3 +656,27 @@ pub fn accessor_percentiles(unit: Vec<f64>) -> AccessorPercentileArray {
         }
     }
 }
+
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+    macro_rules! open {
+        ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
+            $(pub fn $f($($a: $t),*) -> $r { super::$f($($a),*) })*
+        };
+    }
+    open! {
+        accessor_approx_percentile(percentile: f64) -> AccessorApproxPercentile;
+        accessor_approx_percentile_rank(value: f64) -> AccessorApproxPercentileRank;
+        accessor_num_vals() -> AccessorNumVals;
+        accessor_mean() -> AccessorMean;
+        accessor_error() -> AccessorError;
+        accessor_min_val() -> AccessorMinVal;
+        accessor_max_val() -> AccessorMaxVal;
+        accessor_distinct_count() -> AccessorDistinctCount;
+        accessor_stderror() -> AccessorStderror;
+        accessor_into_values() -> AccessorIntoValues;
+        accessor_into_array() -> AccessorIntoArray;
+        accessor_topn() -> AccessorTopn;
+    }
+}
-- 
2.43.0


From 5b26a2fe7f0142b8c19072b83adef139f68fdeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 19/29] fix: finishing a tdigest no longer empties the
 aggregate state

---
 extension/src/tdigest.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extension/src/tdigest.rs b/extension/src/tdigest.rs
index af7fc52..dc19bca 100644
--- a/extension/src/tdigest.rs
+++ b/extension/src/tdigest.rs
@@ -186,12 +186,12 @@ impl<'input> TDigest<'input> {
 fn tdigest_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<TDigest<'static>> {
     unsafe {
         in_aggregate_context(fcinfo, || {
-            let mut state = state;
-            let state: &mut tdigest::Builder = match state.get_mut() {
+            let state: &tdigest::Builder = match state.get() {
                 None => return None,
                 Some(state) => state,
             };
-            TDigest::from_internal_tdigest(&state.build()).into()
+            // the state may still be used after this, e.g. by the next row of a window
+            TDigest::from_internal_tdigest(&state.clone().build()).into()
         })
     }
 }
-- 
2.43.0


From 49511a5074f53dea6bf0cec04d891c8627d90caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 20/29] fix: finishing max_n and min_n no longer empties the
 aggregate state

---
 extension/src/nmost/max_float.rs | 2 +-
 extension/src/nmost/max_int.rs   | 2 +-
 extension/src/nmost/max_time.rs  | 2 +-
 extension/src/nmost/min_float.rs | 2 +-
 extension/src/nmost/min_int.rs   | 2 +-
 extension/src/nmost/min_time.rs  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/extension/src/nmost/max_float.rs b/extension/src/nmost/max_float.rs
index 28263d7..8c2a955 100644
--- a/extension/src/nmost/max_float.rs
+++ b/extension/src/nmost/max_float.rs
@@ -28,7 +28,7 @@ ron_inout_funcs!(MaxFloats<'input>);
 
 impl<'input> From<&mut MaxFloatTransType> for MaxFloats<'input> {
     fn from(item: &mut MaxFloatTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxFloats {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/max_int.rs b/extension/src/nmost/max_int.rs
index 0af682a..5cd777f 100644
--- a/extension/src/nmost/max_int.rs
+++ b/extension/src/nmost/max_int.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MaxInts<'input>);
 
 impl<'input> From<&mut MaxIntTransType> for MaxInts<'input> {
     fn from(item: &mut MaxIntTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxInts {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/max_time.rs b/extension/src/nmost/max_time.rs
index 930adef..d36382b 100644
--- a/extension/src/nmost/max_time.rs
+++ b/extension/src/nmost/max_time.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MaxTimes<'input>);
 
 impl<'input> From<&mut MaxTimeTransType> for MaxTimes<'input> {
     fn from(item: &mut MaxTimeTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxTimes {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_float.rs b/extension/src/nmost/min_float.rs
index ba72207..0a3c8ab 100644
--- a/extension/src/nmost/min_float.rs
+++ b/extension/src/nmost/min_float.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MinFloats<'input>);
 
 impl<'input> From<&mut MinFloatTransType> for MinFloats<'input> {
     fn from(item: &mut MinFloatTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinFloats {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_int.rs b/extension/src/nmost/min_int.rs
index e832ce6..93ea5f1 100644
--- a/extension/src/nmost/min_int.rs
+++ b/extension/src/nmost/min_int.rs
@@ -25,7 +25,7 @@ ron_inout_funcs!(MinInts<'input>);
 
 impl<'input> From<&mut MinIntTransType> for MinInts<'input> {
     fn from(item: &mut MinIntTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinInts {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_time.rs b/extension/src/nmost/min_time.rs
index a121a81..6d892a0 100644
--- a/extension/src/nmost/min_time.rs
+++ b/extension/src/nmost/min_time.rs
@@ -25,7 +25,7 @@ ron_inout_funcs!(MinTimes<'input>);
 
 impl<'input> From<&mut MinTimeTransType> for MinTimes<'input> {
     fn from(item: &mut MinTimeTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinTimes {
                 capacity: item.capacity as u32,
-- 
2.43.0


From 66e5f52449f17e5650ba22f8afa2cd54a23549bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 21/29] fix: finishing state_agg no longer empties the
 aggregate state

---
 extension/src/state_aggregate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extension/src/state_aggregate.rs b/extension/src/state_aggregate.rs
index b99ad65..0add298 100644
--- a/extension/src/state_aggregate.rs
+++ b/extension/src/state_aggregate.rs
@@ -610,7 +610,7 @@ impl state_agg {
 
             let mut merged_durations: Vec<TimeInState> = Vec::new();
             let mut last_record_state = None;
-            for record in s.records.drain(..) {
+            for record in s.records.iter().cloned() {
                 if last_record_state
                     .clone()
                     .map(|last| last != record.state)
-- 
2.43.0


From 34c8fb32ccdfbf354bce0a937d6a79a7977a1f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 22/29] fix: merging tdigest builders keeps the values not yet
 digested

---
 crates/t-digest/src/lib.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 0856b31..3918466 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -726,14 +726,8 @@ impl Builder {
 
     pub fn merge(&mut self, other: Self) {
         assert_eq!(self.digested.max_size(), other.digested.max_size());
-        let digvec = vec![std::mem::take(&mut self.digested), other.digested];
-        if !self.buffer.is_empty() {
-            digvec[0].merge_unsorted(std::mem::take(&mut self.buffer));
-        }
-        if !other.buffer.is_empty() {
-            digvec[1].merge_unsorted(other.buffer);
-        }
-        self.digested = TDigest::merge_digests(digvec);
+        let mut other = other;
+        self.digested = TDigest::merge_digests(vec![self.build(), other.build()]);
     }
 }
 
-- 
2.43.0


From 2999f95da4d785b5e8f44176000b830fb3be494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 23/29] fix: merging empty tdigests keeps their size

---
 crates/t-digest/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 3918466..75fc9fa 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -420,7 +420,10 @@ impl TDigest {
     pub fn merge_digests(digests: Vec<TDigest>) -> TDigest {
         let n_centroids: usize = digests.iter().map(|d| d.centroids.len()).sum();
         if n_centroids == 0 {
-            return TDigest::default();
+            return match digests.first() {
+                Some(first) => TDigest::new_with_size(first.max_size),
+                None => TDigest::default(),
+            };
         }
 
         // TODO should this be the smaller of the sizes?
-- 
2.43.0


From b90e5e9e650e59f720c26b4b92ad782b0c47a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 24/29] fix: approx_percentile_rank of a tdigest at its bounds
 is no longer NaN

---
 crates/t-digest/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 75fc9fa..bba42f7 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -555,9 +555,14 @@ impl TDigest {
                 + (v - weighted_midpoint) / (hi_bound - weighted_midpoint) * hi_weight as f64 / 2.0)
                 / self.count as f64
         } else {
+            // v lies on a bound which has no width below it: avoid dividing zero by zero
+            let midpoint_fraction = if weighted_midpoint > low_bound {
+                (weighted_midpoint - v) / (weighted_midpoint - low_bound)
+            } else {
+                1.0
+            };
             (accum_weight as f64
-                - (weighted_midpoint - v) / (weighted_midpoint - low_bound) * low_weight as f64
-                    / 2.0)
+                - midpoint_fraction * low_weight as f64 / 2.0)
                 / self.count as f64
         }
     }
-- 
2.43.0


From d19a594dd64040e95a4ae502f82cd5b703a8a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 25/29] fix: a uddsketch whose buckets can no longer be
 combined stops compacting

---
 crates/udd-sketch/src/lib.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/udd-sketch/src/lib.rs b/crates/udd-sketch/src/lib.rs
index dfd53fa..e9bd05e 100644
--- a/crates/udd-sketch/src/lib.rs
+++ b/crates/udd-sketch/src/lib.rs
@@ -223,6 +223,11 @@ impl SketchHashMap {
         self.map.len()
     }
 
+    /// Whether a compaction would change any bucket.
+    fn can_compact(&self) -> bool {
+        self.map.keys().any(|key| key.compact_key() != *key)
+    }
+
     /// Combine adjacent buckets using the stack.
     fn compact_using_stack<const N: usize>(&mut self) {
         let len = self.map.len();
@@ -402,6 +407,14 @@ impl UDDSketch {
         self.alpha = 2.0 * self.alpha / (1.0 + self.alpha.powi(2)); // See https://arxiv.org/pdf/2004.08604.pdf Equation 4
     }
 
+    /// Compact until the sketch respects `max_buckets`, or until no two of its buckets
+    /// can be combined any more (every positive value is in bucket 0 or 1, say).
+    fn compact_to_max_buckets(&mut self) {
+        while self.buckets.len() > self.max_buckets.get() as usize && self.buckets.can_compact() {
+            self.compact_buckets();
+        }
+    }
+
     pub fn bucket_iter(&self) -> SketchHashIterator<'_> {
         self.buckets.iter()
     }
@@ -411,9 +424,7 @@ impl UDDSketch {
     pub fn add_value(&mut self, value: f64) {
         self.buckets.increment(self.key(value));
 
-        while self.buckets.len() > self.max_buckets.get() as usize {
-            self.compact_buckets();
-        }
+        self.compact_to_max_buckets();
 
         self.num_values += 1;
         self.values_sum += value;
@@ -457,9 +468,7 @@ impl UDDSketch {
             self.buckets.entry_upsert(key, count);
         }
 
-        while self.buckets.len() > self.max_buckets.get() as usize {
-            self.compact_buckets();
-        }
+        self.compact_to_max_buckets();
 
         self.num_values += other.values;
         self.values_sum += other.sum;
@@ -501,9 +510,7 @@ impl UDDSketch {
             self.buckets.entry_upsert(key, value);
         }
 
-        while self.buckets.len() > self.max_buckets.get() as usize {
-            self.compact_buckets();
-        }
+        self.compact_to_max_buckets();
 
         self.num_values += other.num_values;
         self.values_sum += other.values_sum;
-- 
2.43.0


From c05cebd23d0a8b60764e4b4a66d9a86d2f5deebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 26/29] fix: merging tdigests stays within max_size centroids

---
 crates/t-digest/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index bba42f7..1bdd4cd 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -476,6 +476,7 @@ impl TDigest {
 
         let mut k_limit: f64 = 1.0;
         let mut q_limit_times_count: f64 = Self::k_to_q(k_limit, max_size as f64) * (count as f64);
+        k_limit += 1.0;
 
         let mut iter_centroids = centroids.iter_mut();
         let mut curr = iter_centroids.next().unwrap();
-- 
2.43.0


From 9678f3642ab81bc071e82c0fe1b7526e31c43a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 27/29] verif: open the parts of a hyperloglog under cfg(verif)

---
 extension/src/hyperloglog.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/extension/src/hyperloglog.rs b/extension/src/hyperloglog.rs
index 1a4cbf7..716a221 100644
--- a/extension/src/hyperloglog.rs
+++ b/extension/src/hyperloglog.rs
@@ -1062,4 +1062,20 @@ pub mod verif {
     open! {
         hyperloglog_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<HyperLogLog<'static>>;
     }
+    /// the bytes, the number of entries and the precision of a sparse sketch, or the registers and the precision of a dense one
+    pub fn parts<'a>(h: &'a HyperLogLog<'static>) -> Result<(&'a [u8], u64, u8), (&'a [u8], u8)> {
+        match &h.log {
+            Storage::Sparse {
+                num_compressed,
+                precision,
+                compressed,
+                ..
+            } => Ok((compressed.as_slice(), *num_compressed, *precision)),
+            Storage::Dense {
+                precision,
+                registers,
+                ..
+            } => Err((registers.as_slice(), *precision)),
+        }
+    }
 }
-- 
2.43.0


From 694471dd3b63041373508e548d09dba5f48786b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:12 +0000
Subject: [PATCH 28/29] fix: refuse stored lists whose length overflows when
 multiplied by the size of an element

---
 crates/flat_serialize/flat_serialize/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/flat_serialize/flat_serialize/src/lib.rs b/crates/flat_serialize/flat_serialize/src/lib.rs
index 1881e59..bd8545b 100644
--- a/crates/flat_serialize/flat_serialize/src/lib.rs
+++ b/crates/flat_serialize/flat_serialize/src/lib.rs
@@ -534,7 +534,7 @@ where
     #[inline(always)]
     unsafe fn try_ref(input: &'i [u8], count: usize) -> Result<(Self, &'i [u8]), WrapErr> {
         assert!(<T as FlatSerializable>::TRIVIAL_COPY);
-        let byte_len = T::MIN_LEN * count;
+        let byte_len = T::MIN_LEN.saturating_mul(count);
         if input.len() < byte_len {
             return Err(WrapErr::NotEnoughBytes(byte_len));
         }
-- 
2.43.0


From c231718e07a0d79b2bb0761d53f4ac7f945b456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:33 +0000
Subject: [PATCH 29/29] hooks: a frequency aggregate's state as bytes (cfg
 verif)

---
 extension/src/frequency.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index ff44667..6d70d5b 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -2782,4 +2782,7 @@ pub mod verif {
     pub fn finish_text(state: Internal) -> Option<SpaceSavingTextAggregate<'static>> {
         space_saving_text_final(state, std::ptr::null_mut())
     }
+    pub fn bytes(state: Internal) -> Option<bytea> {
+        space_saving_serialize(state)
+    }
 }
-- 
2.43.0

