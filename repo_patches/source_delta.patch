From 22e6e88a4ad57128c1975424a446f80e2b3086a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:47 +0000
Subject: [PATCH 01/22] fix: use the design's alpha when analyzing metrics

analyze_single_metric and analyze_experiment always ran the t-tests with
the default alpha of 0.05, so the p-value threshold and the confidence
intervals ignored the alpha in the experiment design.
---
 feedx/experiment_analysis.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/feedx/experiment_analysis.py b/feedx/experiment_analysis.py
index ef6716b..6737770 100644
--- a/feedx/experiment_analysis.py
+++ b/feedx/experiment_analysis.py
@@ -484,6 +484,7 @@ def _analyze_regular_experiment_single_metric(
     denominator_data: pd.DataFrame | None,
     post_trim_percentile: float,
     treatment_assignment_column: str,
+    alpha: float,
 ) -> statistics.StatisticalTestResults:
   """Analyzes a regular (non-crossover) A/B test.
 
@@ -504,6 +505,7 @@ def _analyze_regular_experiment_single_metric(
       from the metric in the analysis.
     treatment_assignment_column: The column containin the treatment assignment
       in the data.
+    alpha: The false positive rate of the test.
 
   Returns:
     The statistical test results.
@@ -530,6 +532,7 @@ def _analyze_regular_experiment_single_metric(
       denom_values2=denominator_y_control,
       equal_var=False,
       alternative="two-sided",
+      alpha=alpha,
   )
 
 
@@ -582,6 +585,7 @@ def _analyze_crossover_experiment_single_metric(
     denominator_data: pd.DataFrame | None,
     post_trim_percentile: float,
     treatment_assignment_column: str,
+    alpha: float,
 ) -> statistics.StatisticalTestResults:
   """Analyzes a crossover A/B test.
 
@@ -607,6 +611,7 @@ def _analyze_crossover_experiment_single_metric(
       from the metric in the analysis.
     treatment_assignment_column: The column containin the treatment assignment
       in the data.
+    alpha: The false positive rate of the test.
 
   Returns:
     The statistical test results.
@@ -636,6 +641,7 @@ def _analyze_crossover_experiment_single_metric(
       denom_values1=denominator_y_treatment_demeaned,
       denom_values2=denominator_y_control_demeaned,
       alternative="two-sided",
+      alpha=alpha,
   )
 
 
@@ -738,6 +744,7 @@ def analyze_single_metric(
         denominator_data=denominator_metric_subset,
         post_trim_percentile=post_trim_percentile,
         treatment_assignment_column=treatment_assignment_index_name,
+        alpha=design.alpha,
     )
   else:
     return _analyze_regular_experiment_single_metric(
@@ -745,6 +752,7 @@ def analyze_single_metric(
         denominator_data=denominator_metric_subset,
         post_trim_percentile=post_trim_percentile,
         treatment_assignment_column=treatment_assignment_index_name,
+        alpha=design.alpha,
     )
 
 
-- 
2.43.0


From 712cf27ba0f6805d56fe4750e6db503c961131e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 02/22] fix: make the relative difference interval contain the
 point estimate in any units

The checks for a zero variance used np.isclose's absolute tolerance, so for
metrics with small units (e.g. conversion rates) an unbounded interval was
reported as a bounded one that could exclude the point estimate. When the
confidence set was the union of two ranges, only the upper range was
reported, and a perfect correlation divided by zero.
---
 feedx/statistics.py | 48 +++++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 884b79b..60136b2 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -573,18 +573,6 @@ def relative_difference_confidence_interval(
   var_2 = standard_error_2**2
   var_12 = standard_error_1 * standard_error_2 * corr
 
-  if np.isclose(var_2, 0.0):
-    t_exclusive_sq = np.inf
-  else:
-    t_exclusive_sq = mean_2**2 / var_2
-
-  if np.isclose(var_1, 0.0) or np.isclose(var_2, 0.0):
-    t_complete_sq = np.inf
-  else:
-    t_complete_sq = (
-        mean_1**2 * var_2 - 2 * mean_2 * mean_1 * var_12 + mean_2**2 * var_1
-    ) / (var_1 * var_2 - var_12**2)
-
   if alternative == "two-sided":
     critical_t_value = stats.t.ppf(df=degrees_of_freedom, q=1.0 - alpha / 2.0)
   elif alternative == "greater":
@@ -600,28 +588,28 @@ def relative_difference_confidence_interval(
   adjusted_1 = mean_1**2 - critical_t_value**2 * var_1
   adjusted_2 = mean_2**2 - critical_t_value**2 * var_2
 
-  if t_complete_sq <= critical_t_value**2:
-    # The confidence interval is completely unbounded
-    ratio_lower_bound = 0.0
-    ratio_upper_bound = np.inf
-  else:
+  # The confidence set for the ratio r is all the r >= 0 that satisfy
+  #   adjusted_2 * r**2 - 2 * adjusted_12 * r + adjusted_1 <= 0
+  # and the confidence interval is the smallest interval that contains it. The
+  # comparisons are exact, so the interval doesn't depend on the metric's units.
+  root = np.sqrt(np.maximum(adjusted_12**2 - adjusted_1 * adjusted_2, 0.0))
+
+  if adjusted_2 > 0.0:
     # The lower bound for a ratio can never be less than 0 assuming both
     # values are positive.
     ratio_lower_bound = np.clip(
-        (adjusted_12 - np.sqrt(adjusted_12**2 - adjusted_1 * adjusted_2))
-        / adjusted_2,
-        a_min=0.0,
-        a_max=None,
+        (adjusted_12 - root) / adjusted_2, a_min=0.0, a_max=None
     )
-
-    if t_exclusive_sq <= critical_t_value**2:
-      # The confidence interval is partially unbounded, meaning the upper bound
-      # is infinite but there is still a finite lower bound.
-      ratio_upper_bound = np.inf
-    else:
-      ratio_upper_bound = (
-          adjusted_12 + np.sqrt(adjusted_12**2 - adjusted_1 * adjusted_2)
-      ) / adjusted_2
+    ratio_upper_bound = (adjusted_12 + root) / adjusted_2
+  elif adjusted_1 > 0.0 and adjusted_12 + root > 0.0:
+    # The confidence interval is partially unbounded, meaning the upper bound
+    # is infinite but there is still a finite lower bound.
+    ratio_lower_bound = adjusted_1 / (adjusted_12 + root)
+    ratio_upper_bound = np.inf
+  else:
+    # The confidence interval is completely unbounded
+    ratio_lower_bound = 0.0
+    ratio_upper_bound = np.inf
 
   lower_bound = ratio_lower_bound - 1.0
   upper_bound = ratio_upper_bound - 1.0
-- 
2.43.0


From 2c2fc10f48d5e3b020e7b3f19a340b68aa90ae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:13 +0000
Subject: [PATCH 03/22] fix: allow a zero numerator mean in ratio metrics

The delta method variance divided by the numerator mean, so a ratio with no
numerator events in one group (e.g. no conversions) had a NaN standard error
and p-value.
---
 feedx/statistics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 60136b2..00e7c81 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -726,9 +726,10 @@ def _ratio_mean_and_variance(
   """Calculates the mean and variance of the ratio of sample 1 and 2."""
 
   ratio_mean = mean_1 / mean_2
-  ratio_var = ratio_mean**2 * (
-      var_1 / mean_1**2 + var_2 / mean_2**2 - 2 * cov_12 / (mean_1 * mean_2)
-  )
+  # Written so that it's also defined if mean_1 is 0.
+  ratio_var = (
+      var_1 + ratio_mean**2 * var_2 - 2 * ratio_mean * cov_12
+  ) / mean_2**2
   return ratio_mean, ratio_var
 
 
-- 
2.43.0


From 58ccdd9ce5c8ca6a11b737c2dfcdeb9a5eeaf778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 04/22] fix: do not crash when the control mean is zero

yuens_t_test_ind raised a ZeroDivisionError if the (trimmed) control mean was
0, so one sparse metric made the analysis of the whole experiment fail.
---
 feedx/statistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 00e7c81..8296bce 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -1103,7 +1103,8 @@ def yuens_t_test_ind(
   # We only calculate the relative lift for metrics that are positive.
   # If not, it's hard to interpret it.
   if (mean1 >= 0.0) and (mean2 >= 0.0):
-    relative_difference = mean1 / mean2 - 1.0
+    # np.divide so that a zero control mean gives inf or nan, not an error.
+    relative_difference = np.divide(mean1, mean2) - 1.0
     relative_difference_lb, relative_difference_ub = (
         relative_difference_confidence_interval(
             mean_1=mean1,
-- 
2.43.0


From 37ce8b9327b1151ca34eb9368d2381fa7f26b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 05/22] fix: finite paired confidence intervals when one sample
 is constant

The correlation with a constant sample was 0/0, so the paired test reported
NaN confidence intervals next to a valid p-value, for example when there were
no events in control.
---
 feedx/statistics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 8296bce..820cc8a 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -761,7 +761,10 @@ def _difference_of_ratios_mean_and_variance(
   difference_var = grad.T @ cov @ grad
   difference_mean = mean_1 - mean_2
 
-  corr_12 = (var_1 + var_2 - difference_var) / (2 * np.sqrt(var_1 * var_2))
+  if var_1 > 0.0 and var_2 > 0.0:
+    corr_12 = (var_1 + var_2 - difference_var) / (2 * np.sqrt(var_1 * var_2))
+  else:
+    corr_12 = 0.0  # A constant ratio has no covariance with the other ratio.
 
   return difference_mean, difference_var, mean_1, mean_2, var_1, var_2, corr_12
 
@@ -882,7 +885,10 @@ def yuens_t_test_paired(
     _, standard_error_1, standard_error_2 = trimmed_standard_error
     sample_size = len(trimmed_values)
     degrees_of_freedom = _one_sample_degrees_of_freedom(sample_size)
-    corr = trimmed_cov[1, 2] / np.sqrt(trimmed_cov[1, 1] * trimmed_cov[2, 2])
+    if trimmed_cov[1, 1] > 0.0 and trimmed_cov[2, 2] > 0.0:
+      corr = trimmed_cov[1, 2] / np.sqrt(trimmed_cov[1, 1] * trimmed_cov[2, 2])
+    else:
+      corr = 0.0  # A constant sample has no covariance with the other sample.
     absolute_difference_standard_error = trimmed_standard_error[0]
     absolute_difference = trimmed_means[0]
 
-- 
2.43.0


From d52894fef6eb81fd6ad5c77ea0777d628d5cf09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 06/22] fix: CUPED leaves the metric unchanged if the covariate
 is constant

Dividing by the zero variance of the covariate made the whole adjusted metric
NaN when nothing was trimmed, for example for a metric with no events in the
pretest period.
---
 feedx/statistics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 820cc8a..9ec82a7 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -298,6 +298,10 @@ def apply_cuped_adjustment(
   metric = np.asarray(metric)
   covariate = np.asarray(covariate)
 
+  if np.all(covariate == covariate[0]):
+    # A constant covariate can't explain any of the variance of the metric.
+    return metric
+
   metric_and_covariate = np.stack([metric, covariate], axis=0)
   covariance_matrix = np.cov(metric_and_covariate)
   theta = (
-- 
2.43.0


From 47b5578a753b5a8973e8e5445bd068e48ce2a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 07/22] fix: numeric relative difference columns in the
 experiment results

When the relative difference was not calculated for any metric (e.g. a metric
with a negative average analysed on its own) the columns contained None, and
formatting or plotting the results raised a TypeError.
---
 feedx/experiment_analysis.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/feedx/experiment_analysis.py b/feedx/experiment_analysis.py
index 6737770..488bf40 100644
--- a/feedx/experiment_analysis.py
+++ b/feedx/experiment_analysis.py
@@ -841,7 +841,17 @@ def analyze_experiment(
   experiment_results = pd.DataFrame.from_records(results_list).set_index(
       "metric"
   )
-  return experiment_results
+
+  # The relative difference is None for metrics where it isn't calculated. Make
+  # it nan, so that these columns are always numeric for formatting and plotting.
+  relative_difference_columns = [
+      "relative_difference",
+      "relative_difference_lower_bound",
+      "relative_difference_upper_bound",
+  ]
+  return experiment_results.astype(
+      {column: float for column in relative_difference_columns}
+  )
 
 
 def _format_relative_effect_ci_string(
-- 
2.43.0


From 1560255546637f22cf37a20ed3b9396d1a3b4ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:23 +0000
Subject: [PATCH 08/22] fix: pivot_time_assignment never modifies the caller's
 data

The time period column was added to the input data and only dropped again if
the pivot succeeded, so after an error the same data could not be used again.
---
 feedx/experiment_analysis.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/feedx/experiment_analysis.py b/feedx/experiment_analysis.py
index 488bf40..381abb7 100644
--- a/feedx/experiment_analysis.py
+++ b/feedx/experiment_analysis.py
@@ -267,8 +267,6 @@ def _pivot_regular_time_assignment(
 
   pivoted_data.loc[:, pd.IndexSlice[:, "test"]] /= runtime_weeks
 
-  data.drop(columns=[time_period_column], inplace=True)
-
   return pivoted_data
 
 
@@ -360,8 +358,6 @@ def _pivot_crossover_time_assignment(
         :, pd.IndexSlice[:, "washout_2"]
     ] /= crossover_washout_weeks
 
-  data.drop(columns=[time_period_column], inplace=True)
-
   return pivoted_data
 
 
@@ -433,6 +429,9 @@ def pivot_time_assignment(
         f"The dataframe does not have the following columns: {missing_columns}"
     )
 
+  # Do not add the time_period_column to the caller's data.
+  data = data.copy(deep=False)
+
   if design.is_crossover:
     return _pivot_crossover_time_assignment(
         data,
-- 
2.43.0


From a759c7adbe72d4f237c4f767653fb17d54dda9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 09/22] fix: detect missing item and date combinations when the
 counts are equal

The no_duplicate_items_per_date check only compared the number of items per
date, so it passed when different dates were missing different items.
---
 feedx/data_preparation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/feedx/data_preparation.py b/feedx/data_preparation.py
index 4e95fee..7db04b1 100644
--- a/feedx/data_preparation.py
+++ b/feedx/data_preparation.py
@@ -750,18 +750,18 @@ def _validate_every_item_exists_exactly_once_for_every_date(
     failed = True
     return failed, message
 
-  value_counts_first_group = value_counts_per_group.values[0]
-  if np.any(value_counts_per_group.values != value_counts_first_group):
+  n_items = data[item_id_column].nunique()
+  if np.any(value_counts_per_group.values != n_items):
     message = (
         f"Some {date_column} are missing {item_id_column}. Below are the number"
-        f" of unique {item_id_column} per {date_column}, which should be equal"
-        f" for all dates.\n{value_counts_per_group}\n"
+        f" of unique {item_id_column} per {date_column}, which should be"
+        f" {n_items} for all dates.\n{value_counts_per_group}\n"
     )
     failed = True
     return failed, message
 
   message = (
-      f"All {date_column} have {value_counts_first_group:,} {item_id_column}."
+      f"All {date_column} have {n_items:,} {item_id_column}."
   )
   failed = False
   return failed, message
-- 
2.43.0


From 3b15863320fd3b61dd576703250522b11723ff59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 10/22] fix: designs with numpy parameters survive the yaml
 round trip

yaml.dump writes numpy scalars as python objects, which yaml.safe_load
refuses to load, so the exported design could not be used for the analysis.
---
 feedx/experiment_design.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/feedx/experiment_design.py b/feedx/experiment_design.py
index 3fc0266..5d69da8 100644
--- a/feedx/experiment_design.py
+++ b/feedx/experiment_design.py
@@ -201,7 +201,11 @@ class ExperimentDesign:
     Args:
       file_path: The path to write to.
     """
-    raw_values = dataclasses.asdict(self)
+    # Numpy scalars (e.g. from np.linspace) cannot be loaded by yaml.safe_load.
+    raw_values = {
+        name: value.item() if isinstance(value, np.generic) else value
+        for name, value in dataclasses.asdict(self).items()
+    }
     with open(file_path, "w") as file:
       yaml.dump(raw_values, file)
 
-- 
2.43.0


From 46376bd6299da955720c4126174f4b9cc069abd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:47 +0000
Subject: [PATCH 11/22] fix: simulations work for any metric and item id column
 name

apply_random_treatment_assignment flattened the column names with '__' and
stripped underscores, so validating a design for a metric called e.g.
'_clicks' or 'clicks__x' raised a KeyError.
---
 feedx/experiment_simulations.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/feedx/experiment_simulations.py b/feedx/experiment_simulations.py
index e124c28..afeefb2 100644
--- a/feedx/experiment_simulations.py
+++ b/feedx/experiment_simulations.py
@@ -284,24 +284,19 @@ def apply_random_treatment_assignment(
   if item_id_column not in data.columns:
     raise ValueError("The data does not contain the item_id column.")
 
-  # To do the merging we need to first flatten the columns. This is likely
-  # due to a bug in the current external version of pandas, so this is a
-  # workaround.
-  data_flat = data.copy()
-  data_flat.columns = [
-      "__".join(col).strip("_") for col in data_flat.columns.values
-  ]
-
-  items = data_flat[[item_id_column]].drop_duplicates()
-  items[treatment_column] = rng.choice(2, size=len(items))
-
-  data_flat = data_flat.merge(items, on=item_id_column).set_index(
-      [item_id_column, treatment_column]
+  item_ids = data[item_id_column]
+  unique_item_ids = item_ids.drop_duplicates()
+  assignments = pd.Series(
+      rng.choice(2, size=len(unique_item_ids)), index=unique_item_ids.values
   )
-  data_flat.columns = pd.MultiIndex.from_tuples(
-      [tuple(col.split("__")) for col in data_flat.columns.values]
+
+  output_data = data.drop(columns=item_id_column, level=0)
+  output_data.columns = pd.MultiIndex.from_tuples(output_data.columns.values)
+  output_data.index = pd.MultiIndex.from_arrays(
+      [item_ids.values, item_ids.map(assignments).values],
+      names=[item_id_column, treatment_column],
   )
-  return data_flat
+  return output_data
 
 
 def _apply_synthetic_treatment_effect_to_regular_experiment(
-- 
2.43.0


From 0400c2728b07018ac8a0227af83dbf679cb328ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 12/22] fix: format the analysis summary before any design is
 validated

The validation columns are then all None, and formatting them as percentages
raised a TypeError.
---
 feedx/experiment_simulations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/feedx/experiment_simulations.py b/feedx/experiment_simulations.py
index afeefb2..c4f2af8 100644
--- a/feedx/experiment_simulations.py
+++ b/feedx/experiment_simulations.py
@@ -1299,6 +1299,7 @@ def format_analysis_summary_dataframe(
               "Simulated False Positive Rate",
               "Simulated Power At Minimum Detectable Effect",
           ]),
+          na_rep="",
       )
       .highlight_null(props="opacity:0%")
       .applymap(
-- 
2.43.0


From ef5454f3831268df1fe000d87580c97827a59044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 13/22] fix: synthetic ratios have the requested standard
 deviation

The beta distribution's parameters did not match the requested standard
deviation: a CTR standard deviation of 0.015 gave one of 0.044.
---
 feedx/data_preparation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/feedx/data_preparation.py b/feedx/data_preparation.py
index 7db04b1..1408af5 100644
--- a/feedx/data_preparation.py
+++ b/feedx/data_preparation.py
@@ -123,7 +123,11 @@ def _sample_from_beta(
   if not np.all(valid_standard_deviation):
     raise ValueError("standard_deviation must be between 0 and 1")
 
-  a_plus_b = np.sqrt(mean * (1.0 - mean)) / standard_deviation
+  a_plus_b = mean * (1.0 - mean) / standard_deviation**2 - 1.0
+  if a_plus_b <= 0.0:
+    raise ValueError(
+        "standard_deviation must be less than sqrt(mean * (1 - mean))"
+    )
   return rng.beta(
       a=mean * a_plus_b,
       b=(1.0 - mean) * a_plus_b,
-- 
2.43.0


From a046aa9edd74ab0c58b74f10ca037bf2d304e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 14/22] fix: plot_metric_over_time uses the column names it is
 given

The start of the experiment was always read from columns named time_period
and date, whatever time_period_column and date_column were.
---
 feedx/plotting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/feedx/plotting.py b/feedx/plotting.py
index 7ef9d08..b0c7bec 100644
--- a/feedx/plotting.py
+++ b/feedx/plotting.py
@@ -434,8 +434,10 @@ def plot_metric_over_time(
       nrows=2, figsize=(10, 6), sharex=True, constrained_layout=True
   )
 
-  is_test_or_test_1 = data["time_period"].isin(["test", "test_1", "washout_1"])
-  start_date = data.loc[is_test_or_test_1, "date"].min()
+  is_test_or_test_1 = data[time_period_column].isin(
+      ["test", "test_1", "washout_1"]
+  )
+  start_date = data.loc[is_test_or_test_1, date_column].min()
   pretest_start_date = start_date - dt.timedelta(weeks=design.pretest_weeks)
   end_date = start_date + dt.timedelta(weeks=design.runtime_weeks)
 
-- 
2.43.0


From d35e0a77e11240e136f7ac4a45aeab00204a750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 15/22] fix: plot effects when bounds are infinite or there is
 only the primary metric

---
 feedx/plotting.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/feedx/plotting.py b/feedx/plotting.py
index b0c7bec..3cf55b4 100644
--- a/feedx/plotting.py
+++ b/feedx/plotting.py
@@ -551,8 +551,10 @@ def _plot_horizontal_error_bar_with_infs(
   )
   value_err_ub[inf_ub] = 0.0
 
-  value_lb_max = np.min(value_lb[~inf_lb])
-  value_ub_max = np.max(value_ub[~inf_ub])
+  # The values are included so that the arrows never have a negative length, even
+  # if none of the bounds are finite.
+  value_lb_max = np.min(np.append(value_lb[~inf_lb], value))
+  value_ub_max = np.max(np.append(value_ub[~inf_ub], value))
 
   eb = ax.errorbar(
       y=y_position, x=value, xerr=[value_err_lb, value_err_ub], **kwargs
@@ -664,7 +666,7 @@ def plot_effects(
   _, axs = plt.subplots(
       nrows=2,
       sharex=True,
-      height_ratios=[1, len(metrics) - 1],
+      height_ratios=[1, max(len(metrics) - 1, 1)],
       figsize=(10, 4),
       constrained_layout=True,
   )
-- 
2.43.0


From 692cd90ea425e56ba4393dde20ed332f11caf078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 16/22] fix: crossover minimum detectable effect accounts for
 the full period difference

Without de-meaning, the treatment minus control difference of an item is
+(y1 - y2) or -(y1 - y2), whose variance is var(y1 - y2) + (mean(y1) -
mean(y2))**2, not a quarter of the latter term.
---
 feedx/experiment_simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feedx/experiment_simulations.py b/feedx/experiment_simulations.py
index c4f2af8..6e6cdfa 100644
--- a/feedx/experiment_simulations.py
+++ b/feedx/experiment_simulations.py
@@ -638,7 +638,7 @@ class SimulationAnalysis:
       if self.design.post_trim_percentile > 0.0:
         primary_metric_variance += (
             trimmed_means[1] - trimmed_means[2]
-        ) ** 2 / 4
+        ) ** 2
 
       sample_size = len(trimmed_stacked_values)
     else:
-- 
2.43.0


From 31a3d06f777ffe1a45523b43015914a0ff355f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 17/22] fix: traditional designs can be generated without
 crossover washout weeks

---
 feedx/experiment_simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feedx/experiment_simulations.py b/feedx/experiment_simulations.py
index 6e6cdfa..292d909 100644
--- a/feedx/experiment_simulations.py
+++ b/feedx/experiment_simulations.py
@@ -129,8 +129,8 @@ def generate_all_valid_designs(
 
     can_crossover = (
         crossover_design_allowed
-        & (runtime_weeks > 2 * crossover_washout_weeks)
-        & (runtime_weeks % 2 == 0)
+        and (runtime_weeks > 2 * crossover_washout_weeks)
+        and (runtime_weeks % 2 == 0)
     )
 
     if can_crossover:
-- 
2.43.0


From 9980b9e38c25550f47c5bc72bb02ee9a652270b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 18/22] fix: an input column can be standardized under several
 names

A raw column that was requested under two names, such as conversions and a
custom column, was returned twice under the last of them.
---
 feedx/data_preparation.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/feedx/data_preparation.py b/feedx/data_preparation.py
index 1408af5..8e2d651 100644
--- a/feedx/data_preparation.py
+++ b/feedx/data_preparation.py
@@ -477,10 +477,6 @@ def standardize_column_names_and_types(
       for parsed_name, function in parse_functions.items()
       if parsed_name in column_names.keys()
   }
-  column_renamer = {
-      input_name: parsed_name
-      for parsed_name, input_name in column_names.items()
-  }
 
   for input_column in column_names.values():
     if input_column not in data.columns:
@@ -489,7 +485,7 @@ def standardize_column_names_and_types(
       )
 
   output_data = data[list(column_names.values())].copy()
-  output_data.rename(column_renamer, axis=1, inplace=True)
+  output_data.columns = list(column_names.keys())
 
   for column in output_data.columns:
     parse_function = parse_functions.get(column, lambda x: x)
-- 
2.43.0


From 0f3a8e3f2d08abb97553282e386d65ca714bed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:31 +0000
Subject: [PATCH 19/22] fix: find the primary metric in the effects plot of the
 analyzer notebook

The plot finds the primary metric by its column name, but the notebook passes
its display names. It failed for every primary metric whose name differs from
its column: total_cost (Cost) and total_conversion_value (Conversion value).
---
 notebooks/02_experiment_analyzer.ipynb | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/notebooks/02_experiment_analyzer.ipynb b/notebooks/02_experiment_analyzer.ipynb
index da6c873..eea1b0b 100644
--- a/notebooks/02_experiment_analyzer.ipynb
+++ b/notebooks/02_experiment_analyzer.ipynb
@@ -2055,7 +2055,13 @@
         }
       ],
       "source": [
-        "plotting.plot_effects(experiment_results, design)\n",
+        "# The plot finds the primary metric by its column name.\n",
+        "primary_metric_names = {\n",
+        "    metric.name: metric.column\n",
+        "    for metric in metrics\n",
+        "    if metric.column == design.primary_metric and metric.denominator_column is None\n",
+        "}\n",
+        "plotting.plot_effects(experiment_results.rename(index=primary_metric_names), design)\n",
         "plt.show()"
       ]
     }
-- 
2.43.0


From f3889e7d682dccb0f3880c078564b2c1bc6ee96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:43 +0000
Subject: [PATCH 20/22] fix: statistics of small or unsigned integer samples
 overflowed

---
 feedx/statistics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/feedx/statistics.py b/feedx/statistics.py
index 9ec82a7..7c28886 100644
--- a/feedx/statistics.py
+++ b/feedx/statistics.py
@@ -72,7 +72,8 @@ class TrimmedArray:
     if len(values.shape) not in [1, 2]:
       raise ValueError(f"Must use 1 or 2 dimensional arrays, {values.shape = }")
 
-    self._values_untrimmed = np.atleast_2d(values)
+    # Statistics of small or unsigned integers could overflow.
+    self._values_untrimmed = np.atleast_2d(values).astype(float)
     self.quantile = quantile
 
     assert len(self) == self.original_sample_size - 2 * self.n_trim
@@ -833,6 +834,10 @@ def yuens_t_test_paired(
   if len(values1) != len(values2):
     raise ValueError("Values1 and values2 must have the same lengths.")
 
+  # The difference of small or unsigned integers could overflow.
+  values1 = np.asarray(values1, dtype=float)
+  values2 = np.asarray(values2, dtype=float)
+
   is_ratio_metric = False
   if denom_values1 is not None and denom_values2 is not None:
     is_ratio_metric = True
-- 
2.43.0


From 618e5ab26cbb3313d3b5245fd7780965089938ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:59 +0000
Subject: [PATCH 21/22] fix: item ids of categorical type gave wrong pivots,
 week totals and trimming

---
 feedx/data_preparation.py    | 11 +++++++----
 feedx/experiment_analysis.py |  2 ++
 feedx/plotting.py            |  8 ++++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/feedx/data_preparation.py b/feedx/data_preparation.py
index 8e2d651..ece168e 100644
--- a/feedx/data_preparation.py
+++ b/feedx/data_preparation.py
@@ -697,7 +697,8 @@ def group_data_to_complete_weeks(
     data_copy = (
         data_copy.groupby(
             [week_id_column, week_start_column, item_id_column]
-            + extra_group_columns
+            + extra_group_columns,
+            observed=True,
         )
         .agg(**aggregations)
         .reset_index()
@@ -972,7 +973,7 @@ def _validate_treatment_assignment_is_unique_for_each_item_id(
     item_id_column: str,
     treatment_assignment_column: str,
 ) -> tuple[bool, str]:
-  n_assignments = experiment_data.groupby(item_id_column)[
+  n_assignments = experiment_data.groupby(item_id_column, observed=True)[
       treatment_assignment_column
   ].nunique()
   if np.any(n_assignments != 1):
@@ -1044,7 +1045,7 @@ def validate_no_sample_ratio_mismatch(
     A tuple, where the first element is true if the validation failed and false
     otherwise, and the second is a message to be printed for the user.
   """
-  counts = experiment_data.groupby(treatment_assignment_column)[
+  counts = experiment_data.groupby(treatment_assignment_column, observed=True)[
       item_id_column
   ].nunique()
   srm_result = stats.binomtest(
@@ -1770,7 +1771,9 @@ def perform_treatment_assignment(
         historical_data[week_id_column] > start_week_id
     ].copy()
     pretest_items = (
-        pretest_data.groupby(item_id_column)[design.primary_metric]
+        pretest_data.groupby(item_id_column, observed=True)[
+            design.primary_metric
+        ]
         .sum()
         .reset_index()
     )
diff --git a/feedx/experiment_analysis.py b/feedx/experiment_analysis.py
index 381abb7..f90aac7 100644
--- a/feedx/experiment_analysis.py
+++ b/feedx/experiment_analysis.py
@@ -260,6 +260,7 @@ def _pivot_regular_time_assignment(
       values=metric_columns,
       aggfunc="sum",
       fill_value=0.0,
+      observed=True,
   )
 
   if "pretest" in pivoted_data.columns.get_level_values(1):
@@ -340,6 +341,7 @@ def _pivot_crossover_time_assignment(
       values=metric_columns,
       aggfunc="sum",
       fill_value=0,
+      observed=True,
   )
 
   if "pretest" in pivoted_data.columns.get_level_values(1):
diff --git a/feedx/plotting.py b/feedx/plotting.py
index 3cf55b4..7c1a88d 100644
--- a/feedx/plotting.py
+++ b/feedx/plotting.py
@@ -182,7 +182,9 @@ def plot_metric_history(
   axs[0].set(xlabel="Start Week", ylabel=f"Total {clean_metric_name}")
   axs[0].tick_params(axis="x", rotation=30)
 
-  metric_per_item = data.groupby(item_id_column)[metric_column].mean()
+  metric_per_item = data.groupby(item_id_column, observed=True)[
+      metric_column
+  ].mean()
 
   _make_cumulative_distribution_plot(
       metric_per_item.values,
@@ -348,7 +350,9 @@ def _add_cuped_adjusted_metric_per_date(
 
   pretest_mask = data[time_period_column] == "pretest"
   pretest_values = (
-      data.loc[pretest_mask].groupby(item_id_column)[metric_column].sum()
+      data.loc[pretest_mask]
+      .groupby(item_id_column, observed=True)[metric_column]
+      .sum()
   )
   covariate = data[item_id_column].map(pretest_values)
   raw_metric = data[metric_column].copy()
-- 
2.43.0


From d38a72519197260a3b6e7ce189ba92d90260f8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:35 +0000
Subject: [PATCH 22/22] fix: grouping to weeks dropped items without a value in
 an extra group column

---
 feedx/data_preparation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/feedx/data_preparation.py b/feedx/data_preparation.py
index ece168e..cbc7f75 100644
--- a/feedx/data_preparation.py
+++ b/feedx/data_preparation.py
@@ -699,6 +699,7 @@ def group_data_to_complete_weeks(
             [week_id_column, week_start_column, item_id_column]
             + extra_group_columns,
             observed=True,
+            dropna=False,
         )
         .agg(**aggregations)
         .reset_index()
-- 
2.43.0

