From de8a1c5d5228b362a51720ac70a7509fe60a82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 01/23] fix: compute ceil_multiple in integers so large values
 are not rounded through f64

---
 juno/src/math.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index ff83f03..ec9a65f 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -1,5 +1,10 @@
 pub fn ceil_multiple(value: u64, multiple: u64) -> u64 {
-    f64::ceil(value as f64 / multiple as f64) as u64 * multiple
+    let remainder = value % multiple;
+    if remainder == 0 {
+        value
+    } else {
+        value - remainder + multiple
+    }
 }
 
 pub fn ceil_multiple_offset(value: u64, multiple: u64, offset: u64) -> u64 {
-- 
2.43.0


From 120490a17ce6e2c5e6187cdbbeccea54be819ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 02/23] fix: ceil_multiple_offset must not underflow for values
 below the offset

---
 juno/src/math.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index ec9a65f..6658997 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -8,7 +8,12 @@ pub fn ceil_multiple(value: u64, multiple: u64) -> u64 {
 }
 
 pub fn ceil_multiple_offset(value: u64, multiple: u64, offset: u64) -> u64 {
-    ceil_multiple(value - offset, multiple) + offset
+    let offset = offset % multiple;
+    if value <= offset {
+        offset
+    } else {
+        ceil_multiple(value - offset, multiple) + offset
+    }
 }
 
 pub fn floor_multiple(value: u64, multiple: u64) -> u64 {
-- 
2.43.0


From 02392f789c403bd0908512b74c255aeaa358ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 03/23] fix: Timestamp::ceil keeps an instant that already is
 the start of a month

---
 juno/src/primitives/timestamp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/juno/src/primitives/timestamp.rs b/juno/src/primitives/timestamp.rs
index c57e649..8b12e79 100644
--- a/juno/src/primitives/timestamp.rs
+++ b/juno/src/primitives/timestamp.rs
@@ -72,6 +72,9 @@ impl Timestamp {
             return Self(ceil_multiple_offset(self.0, interval.0, WEEK_OFFSET_MS));
         }
         if interval == Interval::MONTH_MS {
+            if self.floor(interval) == *self {
+                return *self;
+            }
             let dt = datetime_utcfromtimestamp_ms(self.0);
             let (mut year, mut month, _) = dt.to_calendar_date();
             if month == Month::December {
-- 
2.43.0


From 134b8c18f4fadcaa11d7767b618479c3d18af1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:31 +0000
Subject: [PATCH 04/23] fix: generate_missing_spans stays inside the requested
 window

---
 juno/src/utils/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/juno/src/utils/mod.rs b/juno/src/utils/mod.rs
index 3e2e436..e64cd14 100644
--- a/juno/src/utils/mod.rs
+++ b/juno/src/utils/mod.rs
@@ -60,10 +60,12 @@ pub fn generate_missing_spans(
 
     // Spans are ordered by start_date. Spans do not overlap with each other.
     for &(existing_start, existing_end) in existing_spans {
-        if existing_start > missing_start {
-            result.push((missing_start, existing_start));
+        // Existing spans may reach outside of the requested window.
+        let gap_end = u64::min(existing_start, missing_end);
+        if gap_end > missing_start {
+            result.push((missing_start, gap_end));
         }
-        missing_start = existing_end;
+        missing_start = u64::max(missing_start, existing_end);
     }
 
     if missing_start < missing_end {
-- 
2.43.0


From b2d56baf99bb49472008cf55b0f698bbafc227a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:31 +0000
Subject: [PATCH 05/23] fix: page covers a window that is not a multiple of the
 interval

---
 juno/src/utils/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/juno/src/utils/mod.rs b/juno/src/utils/mod.rs
index e64cd14..1a47a81 100644
--- a/juno/src/utils/mod.rs
+++ b/juno/src/utils/mod.rs
@@ -8,7 +8,7 @@ pub use changed::*;
 pub use mid_trend::*;
 pub use persistence::*;
 
-use crate::Advice;
+use crate::{math::ceil_multiple, Advice};
 
 pub fn combine(advice1: Advice, advice2: Advice) -> Advice {
     if advice1 == Advice::None || advice2 == Advice::None {
@@ -76,9 +76,8 @@ pub fn generate_missing_spans(
 }
 
 pub fn page(start: u64, end: u64, interval: u64, limit: u64) -> impl Iterator<Item = (u64, u64)> {
-    let total_size = (end - start) / interval;
     let max_count = limit * interval;
-    let page_size = (total_size as f64 / limit as f64).ceil() as u64;
+    let page_size = ceil_multiple(end - start, max_count) / max_count;
     (0..page_size).map(move |i| {
         let page_start = start + i * max_count;
         let page_end = u64::min(page_start + max_count, end);
-- 
2.43.0


From 24be38d41f81ae63806060c4b61600b11fb88fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 06/23] fix: decimal rounding must not overflow for precisions
 above nine

---
 juno/src/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index 6658997..077afba 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -55,12 +55,12 @@ pub fn std_deviation(data: &[f64]) -> f64 {
 }
 
 pub fn round_down(value: f64, precision: u32) -> f64 {
-    let factor = 10_u32.pow(precision) as f64;
+    let factor = 10_f64.powi(precision as i32);
     (value * factor).floor() / factor
 }
 
 pub fn round_half_up(value: f64, precision: u32) -> f64 {
-    let factor = 10_u32.pow(precision) as f64;
+    let factor = 10_f64.powi(precision as i32);
     (value * factor).round() / factor
 }
 
-- 
2.43.0


From 6103841f5725442ac0916eabaac044c946ff8e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 07/23] fix: BufferedCandle keeps bucket boundaries after gaps
 and for weeks and months

---
 juno/src/utils/buffered_candle.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/juno/src/utils/buffered_candle.rs b/juno/src/utils/buffered_candle.rs
index b50ef9a..fade170 100644
--- a/juno/src/utils/buffered_candle.rs
+++ b/juno/src/utils/buffered_candle.rs
@@ -38,10 +38,12 @@ impl BufferedCandle {
             return Some(Cow::Borrowed(candle));
         }
 
+        let time = candle.time.floor(self.buffer_interval);
+
         let ret = match self.buffer_candle {
             None => {
                 self.buffer_candle = Some(Candle {
-                    time: candle.time.floor(self.buffer_interval),
+                    time,
                     open: candle.open,
                     high: candle.high,
                     low: candle.low,
@@ -51,7 +53,7 @@ impl BufferedCandle {
                 None
             }
             Some(ref mut buffer_candle) => {
-                if candle.time >= buffer_candle.time + self.buffer_interval {
+                if time > buffer_candle.time {
                     Some(*buffer_candle)
                 } else {
                     *buffer_candle += candle;
@@ -60,13 +62,14 @@ impl BufferedCandle {
             }
         };
 
-        let is_last = (candle.time + self.interval) % self.buffer_interval == 0;
+        let end = candle.time + self.interval;
+        let is_last = end.floor(self.buffer_interval) == end;
 
         if let Some(ret) = ret {
             if is_last {
                 panic!("too many missing candles");
             }
-            self.buffer_candle = Some(*candle);
+            self.buffer_candle = Some(Candle { time, ..*candle });
             Some(Cow::Owned(ret))
         } else if is_last {
             Some(Cow::Owned(self.buffer_candle.take().unwrap()))
-- 
2.43.0


From 573b72a14f14b2870f6a6b9c54ee9c3fae0351fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 08/23] fix: Ema2 has a value as soon as it reports itself
 mature

---
 juno/src/indicators/ema2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/indicators/ema2.rs b/juno/src/indicators/ema2.rs
index d834e41..1fa6a1c 100644
--- a/juno/src/indicators/ema2.rs
+++ b/juno/src/indicators/ema2.rs
@@ -47,6 +47,8 @@ impl MA for Ema2 {
     }
 
     fn update(&mut self, price: f64) {
+        self.t = min(self.t + 1, self.t2);
+
         if self.t <= self.t1 {
             self.sma.update(price);
         }
@@ -56,8 +58,6 @@ impl MA for Ema2 {
         } else if self.t >= self.t2 {
             self.value = (price - self.value) * self.a + self.value;
         }
-
-        self.t = min(self.t + 1, self.t2)
     }
 
     fn value(&self) -> f64 {
-- 
2.43.0


From f219f19e15fdd0f9d9d719d69c24d0e381754e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 09/23] fix: DX of a market without directional movement is
 zero, not undefined

---
 juno/src/indicators/dx.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/indicators/dx.rs b/juno/src/indicators/dx.rs
index 90d2080..bf757ad 100644
--- a/juno/src/indicators/dx.rs
+++ b/juno/src/indicators/dx.rs
@@ -32,7 +32,12 @@ impl DX {
         self.dm.update(high, low);
 
         if self.t >= self.t1 {
-            self.value = self.dm.diff() / self.dm.sum() * 100.0;
+            let sum = self.dm.sum();
+            self.value = if sum > 0.0 {
+                self.dm.diff() / sum * 100.0
+            } else {
+                0.0
+            };
         }
     }
 }
-- 
2.43.0


From c9647c8ecf3d290b9635ef45d863dcaacf12a584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 10/23] fix: Stoch of a market without range is zero, not
 undefined

---
 juno/src/indicators/stoch.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/indicators/stoch.rs b/juno/src/indicators/stoch.rs
index 874f630..8895a1a 100644
--- a/juno/src/indicators/stoch.rs
+++ b/juno/src/indicators/stoch.rs
@@ -58,7 +58,12 @@ impl Stoch {
         if self.t >= self.t1 {
             let max_high = self.k_high_window.iter().cloned().fold(f64::MIN, f64::max);
             let min_low = self.k_low_window.iter().cloned().fold(f64::MAX, f64::min);
-            let fast_k = 100.0 * (close - min_low) / (max_high - min_low);
+            let range = max_high - min_low;
+            let fast_k = if range > 0.0 {
+                100.0 * (close - min_low) / range
+            } else {
+                0.0
+            };
 
             self.k_sma.update(fast_k);
 
-- 
2.43.0


From 342b0ea9808a63af897fb4d66e05e05b53ef3327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 11/23] fix: DI of a flat market is zero, not undefined

---
 juno/src/indicators/di.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/juno/src/indicators/di.rs b/juno/src/indicators/di.rs
index 070e06e..7daf7d5 100644
--- a/juno/src/indicators/di.rs
+++ b/juno/src/indicators/di.rs
@@ -48,16 +48,25 @@ impl DI {
         }
 
         if self.t == self.t2 {
-            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
-            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+            self.update_values();
         } else if self.t >= self.t3 {
             self.atr = self.atr * self.per + calc_truerange(self.prev_close, high, low);
-            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
-            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+            self.update_values();
         }
 
         self.prev_close = close;
     }
+
+    fn update_values(&mut self) {
+        // A flat market has neither range nor directional movement.
+        if self.atr > 0.0 {
+            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
+            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+        } else {
+            self.plus_value = 0.0;
+            self.minus_value = 0.0;
+        }
+    }
 }
 
 fn calc_truerange(prev_close: f64, high: f64, low: f64) -> f64 {
-- 
2.43.0


From 2344944dff1bc7022085ac1a577777a237fbf8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 12/23] fix: Adx averages every mature DX value and declares
 its true maturity

---
 juno/src/indicators/adx.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/juno/src/indicators/adx.rs b/juno/src/indicators/adx.rs
index 8747c9f..b7780dc 100644
--- a/juno/src/indicators/adx.rs
+++ b/juno/src/indicators/adx.rs
@@ -3,7 +3,6 @@ use super::{
     smma::{Smma, SmmaParams},
     MA,
 };
-use std::cmp::max;
 
 pub struct Adx {
     pub value: f64,
@@ -21,7 +20,7 @@ impl Adx {
     }
 
     pub fn maturity(&self) -> u32 {
-        max(self.dx.maturity(), self.smma.maturity())
+        self.dx.maturity() + self.smma.maturity() - 1
     }
 
     pub fn mature(&self) -> bool {
@@ -30,11 +29,9 @@ impl Adx {
 
     pub fn update(&mut self, high: f64, low: f64) {
         self.dx.update(high, low);
-        self.value = if self.dx.value == 0.0 {
-            0.0
-        } else {
+        if self.dx.mature() {
             self.smma.update(self.dx.value);
-            self.smma.value
+            self.value = self.smma.value;
         }
     }
 }
-- 
2.43.0


From 069dbac4d43c6c900af00a977efd9e0a886164d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 13/23] fix: Sharpe and Sortino ratios are finite without
 volatility and after a total loss

---
 juno/src/statistics/extended.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/juno/src/statistics/extended.rs b/juno/src/statistics/extended.rs
index 0964c04..a923378 100644
--- a/juno/src/statistics/extended.rs
+++ b/juno/src/statistics/extended.rs
@@ -160,6 +160,16 @@ fn get_asset_performances_from_holdings(
     asset_performances
 }
 
+// A ratio that is undefined (no risk, or a portfolio which lost all its value) is considered 0.0.
+fn finite_ratio(annualized_return: f64, annualized_risk: f64) -> f64 {
+    let ratio = annualized_return / annualized_risk;
+    if ratio.is_finite() {
+        ratio
+    } else {
+        0.0
+    }
+}
+
 fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
     let mut a_returns = Vec::with_capacity(performance.len() - 1);
     for i in 0..a_returns.capacity() {
@@ -177,7 +187,7 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
         0.0
     } else {
         let annualized_volatility = SQRT_365 * std_deviation(&g_returns);
-        annualized_return / annualized_volatility
+        finite_ratio(annualized_return, annualized_volatility)
     };
 
     // Sortino ratio.
@@ -192,11 +202,7 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
         let annualized_downside_risk = SQRT_365 * std_deviation(&neg_g_returns);
         // If there are no neg returns, sortino ratio becomes infinite. We will consider it to be
         // 0.0 instead because that is usually a bad run anyway.
-        if annualized_downside_risk == 0.0 {
-            0.0
-        } else {
-            annualized_return / annualized_downside_risk
-        }
+        finite_ratio(annualized_return, annualized_downside_risk)
     };
 
     assert!(sharpe_ratio.is_finite());
@@ -295,7 +301,7 @@ pub fn get_sharpe_ratio(
             / length as f64;
         let std_dev = variance.sqrt();
         let annualized_volatility = SQRT_365 * std_dev;
-        annualized_return / annualized_volatility
+        finite_ratio(annualized_return, annualized_volatility)
     };
 
     debug_assert!(sharpe_ratio.is_finite());
@@ -373,11 +379,7 @@ pub fn get_sortino_ratio(
             / len_neg_g_returns as f64;
         let std_dev = variance.sqrt();
         let annualized_downside_risk = SQRT_365 * std_dev;
-        if annualized_downside_risk == 0.0 {
-            0.0
-        } else {
-            annualized_return / annualized_downside_risk
-        }
+        finite_ratio(annualized_return, annualized_downside_risk)
     };
 
     debug_assert!(sortino_ratio.is_finite());
-- 
2.43.0


From 2d212c76f858b15e563dc4d97901fbccf03f88b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 14/23] fix: a generation with a single offspring does not
 panic

---
 juno/src/genetics/algorithm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 5898ad2..6153992 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -133,6 +133,11 @@ where
         // crossover & mutation
         let start = time::Instant::now();
         for i in (0..offsprings.len()).step_by(2) {
+            if offsprings.len() == 1 {
+                // Nothing to pair the only offspring with.
+                self.mutation.mutate(rng, &mut offsprings[i].chromosome, ctx);
+                break;
+            }
             // TODO: Ugly.
             // If is last, we wrap around and take the first offspring to pair.
             let is_last = i == offsprings.len() - 1;
-- 
2.43.0


From 397c88bc49b841396302d4d41019cd33c5b52d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 15/23] fix: tournament selection is constructible and picks
 the fittest of its group

---
 juno/src/genetics/selection.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/juno/src/genetics/selection.rs b/juno/src/genetics/selection.rs
index 625b786..ed1463f 100644
--- a/juno/src/genetics/selection.rs
+++ b/juno/src/genetics/selection.rs
@@ -51,7 +51,7 @@ pub struct TournamentSelection {
 
 impl TournamentSelection {
     pub fn new(tournament_size_rate: f32, allow_winner_compete_next_tournament: bool) -> Self {
-        assert!(0.0 > tournament_size_rate && tournament_size_rate < 1.0);
+        assert!(0.0 < tournament_size_rate && tournament_size_rate < 1.0);
         // TODO: Implement.
         assert!(allow_winner_compete_next_tournament);
         Self {
@@ -81,13 +81,15 @@ impl Selection for TournamentSelection {
     ) {
         debug_assert!(self.allow_winner_compete_next_tournament || rate <= 1.0);
 
-        let tournament_size = (parents.len() as f32 * self.tournament_size_rate) as usize;
+        let tournament_size =
+            ((parents.len() as f32 * self.tournament_size_rate) as usize).max(1);
 
         let count = (parents.len() as f32 * rate) as usize;
         for _ in 0..count {
             let tournament = parents.choose_multiple(rng, tournament_size);
             let winner = tournament
-                .max_by(|ind1, ind2| Individual::fitness_desc(ind1, ind2))
+                // Fittest first.
+                .min_by(|ind1, ind2| Individual::fitness_desc(ind1, ind2))
                 .unwrap();
             offsprings.push(winner.clone());
         }
-- 
2.43.0


From 02e88c7b70b90467a4e31a3feb1b9b8ca8c25171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 16/23] fix: fitness reinsertion accepts an offspring count
 equal to the population

---
 juno/src/genetics/reinsertion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/genetics/reinsertion.rs b/juno/src/genetics/reinsertion.rs
index 9aa9e12..072575d 100644
--- a/juno/src/genetics/reinsertion.rs
+++ b/juno/src/genetics/reinsertion.rs
@@ -102,7 +102,7 @@ impl Reinsertion for FitnessReinsertion {
         population_size: usize,
         _ctx: &T::Context,
     ) {
-        debug_assert!(offsprings.len() > population_size);
+        debug_assert!(offsprings.len() >= population_size);
 
         // Offsprings are assumed to be ordered by fitness desc.
         let diff = offsprings.len() - population_size;
-- 
2.43.0


From 773be7297b4dcbe7e1168eb5bf00f8326cfc5cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 17/23] fix: a random easing is a function of the seed alone

---
 juno/src/easing.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/easing.rs b/juno/src/easing.rs
index ea73c10..50a21c0 100644
--- a/juno/src/easing.rs
+++ b/juno/src/easing.rs
@@ -87,7 +87,12 @@ static EASINGS: Lazy<EasingMap> = Lazy::new(|| {
     .collect()
 });
 
-static EASING_CHOICES: Lazy<Vec<Easing>> = Lazy::new(|| EASINGS.keys().copied().collect());
+// The iteration order of a hash map differs from run to run.
+static EASING_CHOICES: Lazy<Vec<Easing>> = Lazy::new(|| {
+    let mut choices: Vec<Easing> = EASINGS.keys().copied().collect();
+    choices.sort_by_key(|&easing| easing as u8);
+    choices
+});
 
 pub trait EasingExt {
     fn gen_easing(&mut self) -> Easing;
-- 
2.43.0


From 7a8289ae72b25b04d48f30ec3a4d30115f22dab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 18/23] fix: malformed or too large intervals are a parse error

---
 juno/src/primitives/interval.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/juno/src/primitives/interval.rs b/juno/src/primitives/interval.rs
index 733750a..bce9336 100644
--- a/juno/src/primitives/interval.rs
+++ b/juno/src/primitives/interval.rs
@@ -1,5 +1,4 @@
 use once_cell::sync::Lazy;
-use regex::Regex;
 use serde::{de, Deserialize, Deserializer, Serialize};
 use std::{
     collections::HashMap,
@@ -33,15 +32,24 @@ const INTERVAL_FACTORS: [(&str, u64); 8] = [
 static INTERVAL_FACTOR_MAP: Lazy<HashMap<&'static str, u64>> =
     Lazy::new(|| INTERVAL_FACTORS.iter().cloned().collect());
 
-static INTERVAL_GROUP_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"(\d+[a-zA-Z]+)").unwrap());
-
-fn calc_interval_group(group: &str) -> u64 {
-    for (i, c) in group.chars().enumerate() {
-        if c.is_alphabetic() {
-            return group[0..i].parse::<u64>().unwrap() * INTERVAL_FACTOR_MAP[&group[i..]];
+// One or more groups of a decimal number followed by a unit.
+fn parse_interval(s: &str) -> Option<u64> {
+    let mut total: u64 = 0;
+    let mut rest = s;
+    loop {
+        let (value, tail) = rest.split_at(rest.find(|c: char| !c.is_ascii_digit())?);
+        let (unit, tail) = tail.split_at(
+            tail.find(|c: char| !c.is_ascii_alphabetic())
+                .unwrap_or(tail.len()),
+        );
+        let value: u64 = value.parse().ok()?;
+        let factor = INTERVAL_FACTOR_MAP.get(unit)?;
+        total = total.checked_add(value.checked_mul(*factor)?)?;
+        if tail.is_empty() {
+            return Some(total);
         }
+        rest = tail;
     }
-    panic!("Invalid interval group: {group}");
 }
 
 #[derive(Debug, Default, Clone, Copy, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize)]
@@ -87,11 +95,7 @@ impl FromStr for Interval {
     type Err = super::ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(
-            INTERVAL_GROUP_RE
-                .find_iter(s)
-                .fold(0, |acc, group| acc + calc_interval_group(group.as_str())),
-        ))
+        parse_interval(s).map(Self).ok_or(Self::Err {})
     }
 }
 
-- 
2.43.0


From b5e73c4c76f13cb9d00bf55a3fbf63094060b90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 19/23] fix: an instant before the epoch is a parse error

---
 juno/src/primitives/timestamp.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/juno/src/primitives/timestamp.rs b/juno/src/primitives/timestamp.rs
index 8b12e79..b52001d 100644
--- a/juno/src/primitives/timestamp.rs
+++ b/juno/src/primitives/timestamp.rs
@@ -105,22 +105,18 @@ impl FromStr for Timestamp {
     type Err = super::ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Err(())
+        OffsetDateTime::parse(s, &Rfc3339)
             .or_else(|_| {
-                OffsetDateTime::parse(s, &Rfc3339)
-                    .map(|x| (x.unix_timestamp_nanos() / 1_000_000) as u64)
+                Date::parse(s, &DATE_FORMAT)
+                    .map(|x| x.with_hms(0, 0, 0).unwrap().assume_offset(UtcOffset::UTC))
             })
-            .or_else(|_| {
-                Date::parse(s, &DATE_FORMAT).map(|x| {
-                    (x.with_hms(0, 0, 0)
-                        .unwrap()
-                        .assume_offset(UtcOffset::UTC)
-                        .unix_timestamp_nanos()
-                        / 1_000_000) as u64
-                })
+            .map_err(|_| Self::Err {})
+            .and_then(|x| {
+                // Instants before the epoch are not representable.
+                u64::try_from(x.unix_timestamp_nanos().div_euclid(1_000_000))
+                    .map_err(|_| Self::Err {})
             })
             .map(Self)
-            .map_err(|_| Self::Err {})
     }
 }
 
-- 
2.43.0


From 0076bb9ec6b5de5f8989442dea847cc8b55045dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 20/23] fix: DoubleMA2 accepts the lowest threshold its
 generator can give

---
 juno/src/strategies/double_ma_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/strategies/double_ma_2.rs b/juno/src/strategies/double_ma_2.rs
index a705660..e61e939 100644
--- a/juno/src/strategies/double_ma_2.rs
+++ b/juno/src/strategies/double_ma_2.rs
@@ -49,7 +49,7 @@ impl DoubleMA2 {
         let (short_ma, long_ma) = &params.mas;
         assert!(short_ma.period() < long_ma.period());
         assert!(params.pos_threshold > 0.0 && params.pos_threshold < 1.0);
-        assert!(params.neg_threshold < 0.0 && params.neg_threshold > -1.0);
+        assert!(params.neg_threshold < 0.0 && params.neg_threshold >= -1.0);
 
         Self {
             short_ma: short_ma.construct(),
-- 
2.43.0


From 81ef4434146a8a7ed318a0a0fec7b4b6ce9a6a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 21/23] fix: FourWeekRule does not advise before its moving
 average is mature

---
 juno/src/strategies/four_week_rule.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/juno/src/strategies/four_week_rule.rs b/juno/src/strategies/four_week_rule.rs
index ba83253..d9735a9 100644
--- a/juno/src/strategies/four_week_rule.rs
+++ b/juno/src/strategies/four_week_rule.rs
@@ -10,7 +10,7 @@ use indicators::EmaParams;
 use juno_derive::*;
 use rand::prelude::*;
 use serde::{Deserialize, Serialize};
-use std::cmp::min;
+use std::cmp::{max, min};
 
 #[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
 pub struct FourWeekRuleParams {
@@ -51,12 +51,14 @@ pub struct FourWeekRule {
 
 impl FourWeekRule {
     pub fn new(params: &FourWeekRuleParams, _meta: &StrategyMeta) -> Self {
+        let ma = params.ma.construct();
+        let t1 = max(params.period + 1, ma.maturity());
         Self {
             prices: BoundedVecDeque::new(params.period as usize),
-            ma: params.ma.construct(),
+            ma,
             advice: Advice::None,
             t: 0,
-            t1: params.period + 1,
+            t1,
         }
     }
 }
-- 
2.43.0


From e52e966267983095fc6ba45774a81e9b8560bec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 22/23] fix: Ema with a period of one applies its explicit
 smoothing

---
 juno/src/indicators/ema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/indicators/ema.rs b/juno/src/indicators/ema.rs
index 515f418..a0a3715 100644
--- a/juno/src/indicators/ema.rs
+++ b/juno/src/indicators/ema.rs
@@ -45,11 +45,11 @@ impl MA for Ema {
     }
 
     fn update(&mut self, price: f64) {
-        self.t = min(self.t + 1, self.t1);
         self.value = match self.t {
-            1 => price,
+            0 => price,
             _ => (price - self.value) * self.a + self.value,
         };
+        self.t = min(self.t + 1, self.t1);
     }
 
     fn value(&self) -> f64 {
-- 
2.43.0


From 5777f06e5cc7a4e51085011f162de722147ac0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 23/23] fix: an evolution of zero generations reports only the
 initial one

---
 juno/src/genetics/algorithm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 6153992..c093180 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -67,7 +67,8 @@ where
 
         let mut rng = StdRng::seed_from_u64(seed);
 
-        let mut generations: Vec<Generation<TE::Chromosome>> = Vec::with_capacity(generations);
+        let num_generations = generations;
+        let mut generations: Vec<Generation<TE::Chromosome>> = Vec::with_capacity(num_generations);
 
         let mut timings = Timings::default();
 
@@ -84,7 +85,7 @@ where
 
         let mut offsprings = Vec::with_capacity(population_size);
 
-        for gen in 1..=generations.capacity() {
+        for gen in 1..=num_generations {
             let mut timings = Timings::default();
 
             self.run_generation(
-- 
2.43.0

