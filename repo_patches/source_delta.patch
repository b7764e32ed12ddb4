From 9ed28cb5bc1122732cb45e1e649c7c913da22d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 1/8] fix: count the evaluations of a generation that contains
 an invalid function value

A generation in which the objective function returned NaN was evaluated but
never added to the function evaluation count; which of its points were
evaluated also depended on thread scheduling in next_parallel.
---
 src/sampling.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sampling.rs b/src/sampling.rs
index a059beb..b570b8e 100644
--- a/src/sampling.rs
+++ b/src/sampling.rs
@@ -79,7 +79,7 @@ impl<F> Sampler<F> {
 
     /// Shared logic between `sample` and `sample_parallel`
     fn sample_internal<
-        P: Fn(Vec<DVector<f64>>, &mut F) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>,
+        P: Fn(Vec<DVector<f64>>, &mut F) -> Vec<Result<EvaluatedPoint, InvalidFunctionValueError>>,
     >(
         &mut self,
         state: &State,
@@ -143,9 +143,12 @@ impl<F> Sampler<F> {
             i += 1;
         }
 
-        let mut points = evaluate_points(y, &mut self.objective_function)?;
+        let results = evaluate_points(y, &mut self.objective_function);
 
-        self.function_evals += points.len();
+        // Every point was evaluated, even if some of them produced invalid values
+        self.function_evals += results.len();
+
+        let mut points = results.into_iter().collect::<Result<Vec<_>, _>>()?;
 
         points.sort_by(|a, b| mode.sort_cmp(a.value, b.value));
         Ok(points)
@@ -179,7 +182,7 @@ impl<F: ObjectiveFunction> Sampler<F> {
                         objective_function.evaluate(x)
                     })
                 })
-                .collect::<Result<Vec<_>, _>>()
+                .collect()
         })
     }
 }
@@ -199,7 +202,7 @@ impl<F: ParallelObjectiveFunction> Sampler<F> {
                         objective_function.evaluate_parallel(x)
                     })
                 })
-                .collect::<Result<Vec<_>, _>>()
+                .collect()
         })
     }
 }
-- 
2.43.0


From 6cccb7da061eb99a63b2b0e8d4ed0c454148d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 2/8] fix: compare standard deviations instead of variances to
 tol_x

TolX is documented to compare the standard deviation of the distribution in
every coordinate, but the diagonal of the covariance matrix holds variances.
---
 src/termination.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/termination.rs b/src/termination.rs
index 4ba417c..dabede0 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -178,7 +178,7 @@ impl<'a> TerminationCheck<'a> {
         }
 
         // Check TerminationReason::TolX
-        if (0..dim).all(|i| (sigma * cov[(i, i)]).abs() < tol_x)
+        if (0..dim).all(|i| (sigma * cov[(i, i)].sqrt()).abs() < tol_x)
             && path_c.iter().all(|x| (sigma * *x).abs() < tol_x)
         {
             result.push(TerminationReason::TolX);
-- 
2.43.0


From 696ea48d47044cdf938d538f1763448484270287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 3/8] fix: do not take medians of histories containing NAN in
 the TolStagnation check

The median of a generation with both positive and negative infinite function
values is NAN, for which the selection algorithm of statrs indexes out of
bounds and panics.
---
 src/termination.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/termination.rs b/src/termination.rs
index dabede0..33d9c9b 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -243,6 +243,12 @@ impl<'a> TerminationCheck<'a> {
                         .cloned()
                         .collect::<Vec<_>>();
 
+                    // Medians of generations with infinite function values can be `NAN`, which has no
+                    // defined order (and so neither does a range containing it have a median)
+                    if first_values.iter().chain(&last_values).any(|x| x.is_nan()) {
+                        return false;
+                    }
+
                     mode.is_better(
                         Data::new(last_values).median(),
                         Data::new(first_values).median(),
-- 
2.43.0


From bdf878c5b275c046edf7ddd664a43c763bd4729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 4/8] fix: keep the best individual of a run that ends with
 InvalidFunctionValue

RestartResults::best is the best individual found, but the individuals of the
run in which the objective function returned NAN were dropped.
---
 src/restart/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/restart/mod.rs b/src/restart/mod.rs
index 1cf0c7a..c753aed 100644
--- a/src/restart/mod.rs
+++ b/src/restart/mod.rs
@@ -373,6 +373,10 @@ impl Restarter {
             function_evals += final_state.function_evals();
             runs += 1;
 
+            if let Some(best) = final_state.overall_best_individual().cloned() {
+                self.update_best_individual(best);
+            }
+
             // Check RestartTerminationReason::InvalidFunctionValue
             if reasons
                 .iter()
@@ -382,10 +386,6 @@ impl Restarter {
                 break;
             }
 
-            if let Some(best) = final_state.overall_best_individual().cloned() {
-                self.update_best_individual(best);
-            }
-
             // Check RestartTerminationReason::FunTarget if enabled
             if reasons.iter().any(|&r| r == TerminationReason::FunTarget) {
                 reason = RestartTerminationReason::FunTarget;
-- 
2.43.0


From ae3612eeabe5b42f17775052bc3af223f24dd7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 5/8] fix: do not draw infinite or extremely large values in
 plots

Recorded values that are infinite (or large enough for an axis range to
overflow) made Plot::save_to_file loop forever while generating axis labels.
---
 src/plotting/draw.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/plotting/draw.rs b/src/plotting/draw.rs
index e5417a7..4bee539 100644
--- a/src/plotting/draw.rs
+++ b/src/plotting/draw.rs
@@ -25,6 +25,9 @@ use crate::Mode;
 const FONT: &str = "sans-serif";
 /// The maximum number of elements to allow in a legend before removing it
 const MAX_LEGEND_VALUES: usize = 18;
+/// The maximum magnitude of values to draw. The ranges of the axes (and the ratio between their
+/// ends) must stay finite or drawing them would never finish
+const MAX_DRAWN_VALUE: f64 = 1e250;
 
 /// Parameters for a y-axis
 struct YAxis<Y> {
@@ -148,7 +151,7 @@ pub fn draw_single_dimensioned<'a>(
             context.draw_series(LineSeries::new(points_dist_right, &colors::CYAN))?;
 
             // Marker for overall best function value
-            if !best_value.is_nan() {
+            if is_drawable(best_value) {
                 let abs_overall_best = (data.function_evals()[best_index], best_value.abs());
                 context
                     .plotting_area()
@@ -405,7 +408,22 @@ fn add_to_legend<C: Color + 'static>(annotation: &mut SeriesAnno<Backend>, label
         .legend(move |(x, y)| PathElement::new(vec![(x, y), (x + 20, y)], &color));
 }
 
-/// Returns an iterator of (x, y) points with NAN y points filtered out
+/// Returns whether the value can be drawn (i.e. is neither NAN nor too large)
+fn is_drawable(y: f64) -> bool {
+    y.abs() <= MAX_DRAWN_VALUE
+}
+
+/// Returns the minimum and maximum of the drawable values in the iterator
+fn get_drawable_range<I: Iterator<Item = f64> + Clone>(iter: I) -> (f64, f64) {
+    let iter = iter.filter(|y| is_drawable(*y));
+    // The range is arbitrary if there is nothing to draw
+    let min = iter.clone().min_by(|a, b| partial_cmp(*a, *b));
+    let max = iter.max_by(|a, b| partial_cmp(*a, *b));
+
+    (min.unwrap_or(1.0), max.unwrap_or(1.0))
+}
+
+/// Returns an iterator of (x, y) points with y points that can't be drawn filtered out
 fn get_points<'a, X, Y>(x: X, y: Y) -> impl Iterator<Item = (usize, f64)> + 'a
 where
     X: IntoIterator<Item = usize> + 'a,
@@ -413,7 +431,7 @@ where
 {
     x.into_iter()
         .zip(y)
-        .filter(|&(_, y)| !y.is_nan())
+        .filter(|&(_, y)| is_drawable(y))
         .map(|(x, y)| (x, y))
 }
 
@@ -422,13 +440,9 @@ where
 fn get_log_y_axis<I: Iterator<Item = f64> + Clone>(iter: I) -> YAxis<LogCoord<f64>> {
     // Margin to be added to the top and bottom of the range
     let margin = 0.4;
-    let log_min = iter
-        .clone()
-        .min_by(|a, b| partial_cmp(*a, *b))
-        .unwrap()
-        .log10()
-        - margin;
-    let log_max = iter.max_by(|a, b| partial_cmp(*a, *b)).unwrap().log10() + margin;
+    let (min, max) = get_drawable_range(iter);
+    let log_min = min.log10() - margin;
+    let log_max = max.log10() + margin;
 
     let num_labels = ((log_max - log_min).round() as usize).min(26);
     let y_range: LogCoord<f64> = (10f64.powf(log_min)..10f64.powf(log_max))
@@ -446,8 +460,7 @@ fn get_linear_y_axis<I: Iterator<Item = f64> + Clone>(
     iter: I,
     scientific_notation: bool,
 ) -> YAxis<Range<f64>> {
-    let mut min = iter.clone().min_by(|a, b| partial_cmp(*a, *b)).unwrap();
-    let mut max = iter.max_by(|a, b| partial_cmp(*a, *b)).unwrap();
+    let (mut min, mut max) = get_drawable_range(iter);
     let mut margin = (max - min) * 0.15;
 
     if margin == 0.0 {
-- 
2.43.0


From d88788d55716ea9ed73619c14a4a89dda19cb3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 6/8] fix: report TolXUp when the distribution overflows

With tol_x_up set to infinity, sigma or the mean could overflow to infinity (or NAN) without any
reason being reported, after which every sampled point is invalid.
---
 src/termination.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/termination.rs b/src/termination.rs
index 33d9c9b..8e0b082 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -271,7 +271,10 @@ impl<'a> TerminationCheck<'a> {
                 .max_by(|a, b| utils::partial_cmp(**a, **b))
                 .unwrap();
 
-        if max_standard_deviation / initial_sigma > tol_x_up {
+        // A distribution that has overflowed exceeds any limit, including an infinite one
+        let is_finite = max_standard_deviation.is_finite() && mean.iter().all(|x| x.is_finite());
+
+        if !is_finite || max_standard_deviation / initial_sigma > tol_x_up {
             result.push(TerminationReason::TolXUp);
         }
 
-- 
2.43.0


From 31013d6f8ecfde1acb84d46218f0e055a897a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 7/8] fix: saturate the evaluations of the next plot point, so
 that a very large gap does not overflow

---
 src/plotting/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting/mod.rs b/src/plotting/mod.rs
index c4bd1a9..85bd8f8 100644
--- a/src/plotting/mod.rs
+++ b/src/plotting/mod.rs
@@ -98,7 +98,7 @@ impl Plot {
     /// Returns the next time a data point should be recorded, in function evals.
     pub(crate) fn get_next_data_point_evals(&self) -> usize {
         match self.last_data_point_evals {
-            Some(evals) => evals + self.options.min_gap_evals,
+            Some(evals) => evals.saturating_add(self.options.min_gap_evals),
             None => 0,
         }
     }
-- 
2.43.0


From fcf4ce02bb647450009b9b3e92438c4d5c57a331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 8/8] fix: print_final_info repeated the state that had just
 been printed automatically in the first generations

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 14093e1..2780116 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -219,6 +219,9 @@ pub struct CMAES<F> {
     print_gap_evals: Option<usize>,
     /// The last time [`CMAES::print_info`] was called, in function evaluations
     last_print_evals: usize,
+    /// The number of function evaluations at the last automatic [`CMAES::print_info`] call,
+    /// including those of the first few generations
+    last_info_evals: Option<usize>,
     /// The time at which the `CMAES` was created
     time_created: Instant,
 }
@@ -281,6 +284,7 @@ impl<F> CMAES<F> {
             plot,
             print_gap_evals: options.print_gap_evals,
             last_print_evals: 0,
+            last_info_evals: None,
             time_created: Instant::now(),
         };
 
@@ -343,10 +347,12 @@ impl<F> CMAES<F> {
             if self.sampler.function_evals() >= self.last_print_evals + gap_evals {
                 self.print_info();
                 self.last_print_evals = self.sampler.function_evals();
+                self.last_info_evals = Some(self.sampler.function_evals());
             } else if self.state.generation() < 4 {
                 // Don't update last_print_evals so the printed generation numbers can remain
                 // multiples of 10
                 self.print_info();
+                self.last_info_evals = Some(self.sampler.function_evals());
             }
         }
 
@@ -562,7 +568,7 @@ impl<F> CMAES<F> {
     /// called manually after termination to print the final state if [`run`][`Self::run`] isn't
     /// used.
     pub fn print_final_info(&self, termination_reasons: &[TerminationReason]) {
-        if self.sampler.function_evals() != self.last_print_evals {
+        if self.last_info_evals != Some(self.sampler.function_evals()) {
             self.print_info();
         }
 
-- 
2.43.0

