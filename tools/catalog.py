"""The properties: the single source of properties.jsonl and MANIFEST.json."""

DP = "feedx/data_preparation.py"
EA = "feedx/experiment_analysis.py"
ED = "feedx/experiment_design.py"
ES = "feedx/experiment_simulations.py"
ST = "feedx/statistics.py"
PL = "feedx/plotting.py"

PROPERTIES = []


def P(id, title, statement, over, quant, why, files, mech, observe, note,
      technique, state=()):
  PROPERTIES.append(dict(
      id=id, title=title, statement=statement, over=over, quant=quant, why=why,
      files=files, mech=mech, observe=observe, note=note, technique=technique,
      state=state))


REF = "runtime monitoring: online reference-model oracle over seeded hostile workloads"
META = "runtime monitoring: metamorphic trace monitors over seeded workloads"
STATM = "runtime monitoring: statistical monitor over many monitored executions"
CON = "runtime monitoring: contract (pre/postcondition) monitors over seeded workloads"

# ---------------------------------------------------------------- designs
P("D01", "A design is accepted iff it satisfies every documented constraint",
  "Creating an experiment design succeeds exactly when every documented constraint holds (positive runtime, non-negative pretest weeks and trim fractions, pre-trims summing below 1, post-trim below 0.5, no pre-trimming without pretest weeks, a feasible even crossover runtime with washout weeks, more than 50 items left), and otherwise raises a ValueError. For every accepted design the item counts after pre- and post-trimming are the number of items minus the floor of each trimmed fraction, post-trimming being applied to both sides of what pre-trimming left.",
  ["configurations"], "every combination of design parameters, including the exact boundary of every constraint",
  "The tests try one or two values per constraint; combinations and exact boundaries (sum of trims = 1, 50 vs 51 items, runtime = 2*washout) are never crossed.",
  [ED], [("validation of the parameters", ED + ": ExperimentDesign._validate_design"), ("item counts", ED + ": ExperimentDesign.__post_init__")],
  ["accept/raise outcome and item counts of every constructed design"],
  "Observed on generated parameter combinations concentrated on the boundaries.", REF)
P("D02", "Designs survive saving and loading, and tampered files are rejected",
  "Writing any valid design to a file and loading it again gives an equal design with the same identifier, whatever its field values (unusual strings, unset or set salt, numpy scalars from a grid, extreme floats) and whatever the file contained before. Loading a file whose item counts after trimming disagree with its trim fractions, or whose parameters are invalid, raises a ValueError and never returns a design.",
  ["configurations", "inputs"], "every valid design and every single-field tampering of its saved file",
  "The tests round-trip a couple of ordinary designs; strings that need quoting, numpy values, tiny floats and each tampered field are not sampled.",
  [ED], [("yaml writer", ED + ": ExperimentDesign.write_to_yaml"), ("yaml loader with count validation", ED + ": ExperimentDesign.load_from_yaml")],
  ["the loaded object versus the one written"], "Observed on generated designs and tampered files in a scratch directory.", REF)
P("D03", "The design identifier depends on everything except the coinflip salt",
  "Two designs have the same identifier if and only if they agree on every parameter other than the coinflip salt; the identifier is stable across copies, processes and save/load, and setting or changing the salt never changes it.",
  ["configurations"], "every pair of valid designs differing in any single parameter, and every salt",
  "The tests compare two pairs of designs; whether every parameter takes part in the identifier is not exercised.",
  [ED], [("identifier", ED + ": ExperimentDesign.design_id")],
  ["identifiers of design pairs, in this and in a fresh process"], "Observed on generated design pairs that differ in one parameter at a time.", META)
P("D04", "The printed design states what the experiment will actually do",
  "The printed description of any valid design names its type, primary metric, weeks, alpha, power and salt, and reports the item counts at each trimming stage exactly. For a crossover the stated swap week and washout weeks are exactly the ones the analysis treats as the swap and as washout.",
  ["configurations"], "every valid design",
  "The tests compare the printed text of a handful of designs; agreement with the labels used by the analysis is not checked anywhere.",
  [ED, EA], [("description", ED + ": ExperimentDesign.__str__"), ("labels used by the analysis", EA + ": add_time_period_column")],
  ["numbers parsed from the printed text versus the design and versus the period labels"], "Parses the facts (not the wording around them) out of the text.", REF)

# ---------------------------------------------------------------- randomisation
P("R01", "Treatment assignment is a stable pure function of item and salt",
  "For every salt and item id the assignment is 0 or 1, identical on every call, in every process, for numeric and text forms of the same id, and equal to the parity of the MD5 hash of salt followed by id, so that past experiments can always be re-derived. Empty salts are rejected and randomly drawn salts are never repeated.",
  ["inputs", "histories"], "every salt and item id, call order and process",
  "The tests check a few golden assignments; stability over arbitrary strings, types and processes is not sampled.",
  [ED], [("hash coinflip", ED + ": Coinflip.__call__"), ("random salts", ED + ": Coinflip.with_random_salt")],
  ["assignments per (salt, item) in several processes"], "Oracle: independent MD5 parity computed byte by byte; several fresh processes with different hash seeds.", REF)
P("R02", "Assignments are balanced and independent across items and salts",
  "Over any family of item ids (sequential, prefixed, numeric, long) and salts, each item is treated with probability one half, independently of other items and of its assignment under any other salt. No structural feature of the id (parity, length, last digit) predicts the assignment.",
  ["inputs"], "families of item ids and salts",
  "The tests check balance of one list of ids for one salt; independence across salts and from id features is not tested.",
  [ED], [("hash coinflip", ED + ": Coinflip.__call__")],
  ["assignment counts, cross-salt and cross-item contingency tables"], "Exact binomial / chi-square monitors with thresholds of 1e-7, deterministic given the ids.", STATM)
P("R03", "The randomised item list is exactly the eligible items, trimmed and coinflipped",
  "Randomising a historical dataset returns each eligible item exactly once: without pre-trimming every item, with pre-trimming exactly the number of items the design promises, dropping only the items with the highest and lowest total primary metric over the most recent pretest weeks. Each item's assignment is the coinflip under the design's salt; a missing salt is generated, recorded in the design and reproduces the same assignment when reused.",
  ["inputs", "configurations"], "every historical dataset (row order, ties, extra columns, more weeks than needed) and design",
  "The tests use one small dataset per case without ties, extra weeks or asymmetrical trims.",
  [DP, ED], [("pre-trim and coinflip", DP + ": perform_treatment_assignment"), ("trimming", DP + ": trim_outliers")],
  ["returned item list versus an independent recomputation"], "Oracle: independent trimming and MD5 parity; ties judged by value, not by identity.", REF)

# ---------------------------------------------------------------- data preparation
P("P01", "Standardising columns preserves every value under its standard name",
  "Standardising raw data returns, row by row and in order, exactly the requested columns under their standard names with text item ids, dates and floating point metrics, applying custom parse functions to the custom columns only; one raw column may be requested under several names. Unrequested columns are dropped, and custom names that clash with standard ones, parse functions for unknown columns, missing input columns and values that cannot be read as a number or a date raise a ValueError.",
  ["inputs", "configurations"], "every raw frame, column naming (including swapped and permuted names) and dtype",
  "The tests use one naming scheme; permuted names (e.g. the raw column called clicks holding impressions) and mixed dtypes are not sampled.",
  [DP], [("renaming and parsing", DP + ": standardize_column_names_and_types")],
  ["output frame versus cell-by-cell expectation"], "Hostile names: permutations of the standard names used as raw names.", REF)
P("P02", "Filling gaps adds exactly the missing zero rows and changes nothing else",
  "After filling, every combination of an item and a date present in the data has a row, present rows (also repeated ones) are kept with all their values, added rows are zero in every metric, column types are kept and metric totals are unchanged. Filling twice gives the same result as filling once.",
  ["inputs"], "every sparse item-by-date dataset, column names and dtypes",
  "The tests fill one or two tiny frames; conservation on arbitrary sparsity patterns and dtypes is not sampled.",
  [DP], [("cross join and fill", DP + ": fill_missing_rows_with_zeros")],
  ["output rows versus the present cells"], "Complete-data oracle as a dictionary keyed by (item, date).", REF)
P("P03", "Weeks partition the calendar from the start date and weekly totals conserve",
  "Every date is assigned to the seven-day week counted from the start date (or first date), with week 0 starting on it and earlier weeks negative, and the stated week start matches. Grouping daily data to weeks keeps exactly the weeks with all seven days, with each item's totals equal to the sum of its days; weekly data pass through unchanged, and data that is neither daily nor weekly is rejected.",
  ["inputs"], "every start date (weekends, leap days, year ends), span of days and row order",
  "The tests use one aligned calendar; negative weeks, partial first/last weeks and leap days are not crossed.",
  [DP], [("week ids", DP + ": add_week_id_and_week_start"), ("weekly grouping", DP + ": group_data_to_complete_weeks")],
  ["per item-week sums and the set of weeks kept"], "Oracle: pure-python calendar arithmetic on date ordinals.", REF)
P("P04", "Historical preparation returns the complete weekly metric of the raw data",
  "For any raw daily or weekly dataset, the prepared historical data has one row per item and complete week counted from the first date, holding the raw weekly total of the primary metric and zero where the raw data had no row. Downsampling keeps the requested fraction of items with all of their rows unchanged, and is reproducible from the random state.",
  ["inputs", "configurations"], "every raw dataset (sparse, shuffled, daily or weekly, text dates, numeric ids) and every metric name",
  "The tests run the pipeline on one synthetic frame; end-to-end conservation against raw rows is not checked on sparse or partial-week data.",
  [DP], [("historical pipeline", DP + ": prepare_and_validate_historical_data"), ("downsampling", DP + ": downsample_items")],
  ["prepared rows versus weekly sums of the raw rows"], "Oracle: dictionary sums over raw rows.", REF)
P("P05", "Experiment preparation joins assignments and performance without loss",
  "The prepared experiment data has exactly one row for every assigned item and observed date, with the raw metric values, zeros where there was no performance (including assigned items that never appear), the item's assignment, week ids counted from the experiment start and the matching period label. Items without an assignment are dropped and contribute to nothing else; repeated raw rows and items assigned twice are rejected.",
  ["inputs", "configurations"], "every combination of performance data and assignment list (missing items, extra items, sparse rows, numeric ids, shuffled rows) and design",
  "The tests prepare one small dataset per case; the interplay of missing, extra and zero-filled items with weeks and periods is not sampled.",
  [DP, EA], [("experiment pipeline", DP + ": prepare_and_validate_experiment_data"), ("period labels", EA + ": add_time_period_column")],
  ["prepared rows versus raw rows and assignment list"], "Oracle: dictionary join over raw rows; periods from an independent label function.", REF)
P("P06", "Historical validation rejects every corrupted dataset and no clean one",
  "Validating historical data passes for every clean dataset and raises a ValueError naming a check that really fails whenever the data has nulls, duplicate or missing item/date combinations, irregular dates, gaps in week ids, or a non-finite or negative primary metric, whichever rows and however few are affected.",
  ["inputs", "fault_sequences"], "every clean dataset and every injected corruption (place, size, combination)",
  "Each check is tested with one corrupted frame; corruptions that keep counts equal, sit in the last row, or combine are not sampled.",
  [DP], [("historical checks", DP + ": validate_historical_data")],
  ["pass/raise outcome and the named check versus an independent set of failing checks"], "Fault injection into clean data; oracle recomputes the set of failing checks.", REF)
P("P07", "Experiment validation rejects every corrupted experiment and no clean one",
  "Validating experiment data passes for every clean experiment and raises a ValueError naming a check that really fails for nulls, duplicate or missing item/date combinations, irregular dates, gaps in week ids, non-finite or disallowed negative metrics, a wrong item count, insufficient dates for the design, ambiguous assignments, assignments that differ from the coinflip, sample ratio mismatch, or a missing primary metric.",
  ["inputs", "fault_sequences"], "every clean experiment and every injected corruption (place, size, combination)",
  "Each check is tested with one corrupted frame; single flipped assignments, off-by-one dates, corruption in secondary metrics and combinations are not sampled.",
  [DP], [("experiment checks", DP + ": validate_experiment_data"), ("sample ratio check", DP + ": validate_no_sample_ratio_mismatch")],
  ["pass/raise outcome and the named check versus an independent set of failing checks"], "Fault injection into clean data; oracle recomputes the set of failing checks.", REF)
P("P08", "Skipping a validation downgrades only the named check to a warning",
  "Listing checks to skip turns a failure of exactly those checks into a printed warning that names the check, while every other failing check still raises. Unknown names are rejected with a ValueError before anything else, and skipping checks that pass changes nothing, including the prepared data.",
  ["configurations", "fault_sequences"], "every subset of skipped checks crossed with every set of failing checks",
  "The tests skip single checks on single failures; the cross product of skipped and failing checks is not sampled.",
  [DP], [("skippable checks", DP + ": ValidationChecks.add_check"), ("name validation", DP + ": ValidationChecks.assert_check_exists")],
  ["outcome and printed warnings per (skipped, failing) pair"], "Counts distinct (skipped, failing) pairs seen.", REF)
P("P09", "Trimming removes exactly the promised number of extreme rows",
  "Trimming removes floor(fraction x rows) rows from the top and from the bottom, never removes a row strictly inside the range it keeps, leaves the remaining rows with all values and their original order, and returns the data unchanged when nothing is to be trimmed. Ties are broken at random but reproducibly, and invalid fractions raise a ValueError.",
  ["inputs"], "every dataset (ties, zeros, negative values, single or two-level columns) and pair of trim fractions",
  "The tests trim one ten-row frame; ties at the cut, asymmetric fractions and floors of inexact products are not sampled.",
  [DP], [("outlier trimming", DP + ": trim_outliers")],
  ["multiset of kept and removed values"], "Oracle on value multisets so tie breaking is free; tie randomness monitored over seeds.", REF)
P("P10", "Preparing, randomising and analysing never modify the caller's data",
  "The pipeline entry points (preparation, validation, randomisation, trimming, pivoting, analysis, formatting, plotting, simulation) leave every dataset they are given bit-for-bit unchanged: values, columns, column types, index and row order. This holds also when they raise an error.",
  ["inputs", "fault_sequences"], "every entry point, every input and every failing input",
  "The tests check mutation for two functions on one frame each, never after an error.",
  [DP, EA, ES, PL], [("defensive copies", DP + ": prepare_and_validate_experiment_data"), ("defensive copies", EA + ": pivot_time_assignment"), ("defensive copies", ES + ": format_analysis_summary_dataframe"), ("defensive copies", PL + ": plot_metric_over_time")],
  ["deep fingerprint of every input before and after each call"], "Byte-level fingerprints around every call, with and without injected errors.", "runtime monitoring: input-immutability monitor around every public entry point")
P("P11", "Synthetic data is complete, consistent and reproducible",
  "Synthetic data has exactly one row per item and day of the requested weeks before and after the start date, non-negative metrics obeying impressions >= clicks >= conversions with integer counts, zero cost without clicks and zero value without conversions. The same random state gives the same data; invalid means or standard deviations raise a ValueError.",
  ["configurations"], "every parameter setting, span and random state",
  "The tests check columns and shape for one setting.",
  [DP], [("generator", DP + ": generate_synthetic_data")],
  ["every generated row"], "Row-level contract monitors over generated settings.", CON)
P("P12", "Synthetic data follows the requested averages and standard deviations",
  "The long-run averages and standard deviations, at item and daily level, of impressions, click-through rate, cost per click, conversion rate and value per conversion equal the requested ones, for every admissible setting. No effect of time or item order is present.",
  ["configurations"], "every admissible parameter setting",
  "No existing test checks a moment of the generated data.",
  [DP], [("distributions", DP + ": generate_synthetic_data")],
  ["sample moments versus requested moments with standard-error scaled bounds"], "Statistical monitor, thresholds beyond 5.5 standard errors.", STATM)
P("P13", "Demo effects multiply exactly the treated cells",
  "Adding demo effects multiplies each metric by one plus its effect in exactly the rows that are treated (treatment group during the test; in a crossover also the first washout, and the control group during the second washout and test) and leaves every other row, column and the caller's data unchanged.",
  ["inputs", "configurations"], "every experiment dataset, crossover or not, and every set of effects",
  "The tests use one effect size and one small frame.",
  [DP], [("demo effects", DP + ": add_relative_effects_to_synthetic_data_for_demo")],
  ["every cell before and after"], "Oracle: cell-by-cell expectation with distinct effects per metric.", REF)
P("P14", "At-least-one metrics flag exactly the positive values",
  "Each at-least-one metric is the integer 1 where the source metric is above zero and 0 elsewhere, for any number of metrics, leaving the other columns unchanged, and a warning naming the metric is printed exactly when the flag is constant.",
  ["inputs"], "every metric column including zeros, tiny, negative and constant values",
  "The tests use one frame with small integers.",
  [DP], [("binomial metrics", DP + ": add_at_least_one_metrics")],
  ["flag columns and printed warnings"], "Oracle: cell-by-cell.", REF)

# ---------------------------------------------------------------- statistics
P("S01", "Trimmed statistics equal trimmed means and winsorized moments",
  "For every sample (or stack of aligned samples) and quantile in [0, 0.5), the trimmed size, trimmed mean, winsorized mean, variance, standard deviation and covariance equal their definitions, trimming floor(quantile x n) from each side by the first row and carrying the other rows along. Quantiles outside the range and arrays of other dimensions raise a ValueError.",
  ["inputs"], "every sample without ties at the cut, any scale, offset, size and quantile",
  "The tests compare a few short arrays; floors of inexact products, stacks and extreme scales are not sampled.",
  [ST], [("trimmed array", ST + ": TrimmedArray")],
  ["all statistics versus an independent loop implementation"], "Independent implementation by sorting and looping; compared with relative tolerance scaled by conditioning.", REF)
P("S02", "The covariate adjustment keeps the mean and never increases variance",
  "For every metric and pre-experiment covariate the adjusted metric is finite, keeps the (trimmed) mean, and never has a larger (winsorized) variance than the original; without trimming its variance is exactly reduced by the squared correlation. It does not depend on the covariate's units or offset, and a constant covariate leaves the metric unchanged.",
  ["inputs"], "every metric/covariate pair including constant, zero-inflated, heavy-tailed and collinear ones",
  "The tests use a few random gaussian samples and one quantile.",
  [ST], [("CUPED", ST + ": apply_cuped_adjustment")],
  ["mean, winsorized variance and finiteness before and after"], "Oracles use the independent trimmed-statistics implementation.", META)
P("S03", "Two-sample tests equal Yuen's and Welch's tests",
  "For any two samples, trimming quantile, variance assumption, alternative and alpha, the two-sample test returns the statistic, degrees of freedom, p-value, standard error, sample size, absolute difference, interval and control average of Yuen's trimmed test, which reduces to Welch's or Student's test without trimming.",
  ["inputs", "configurations"], "every pair of samples and option combination",
  "The tests compare a few samples against golden numbers; option combinations and unequal sizes are not crossed.",
  [ST], [("two-sample test", ST + ": yuens_t_test_ind")],
  ["every field of the result versus an independent implementation and scipy"], "Independent implementation plus scipy.stats.ttest_ind(trim=...) as a second oracle.", REF)
P("S04", "Paired tests equal the one-sample trimmed test on the differences",
  "For any paired samples, trimming quantile, alternative and alpha, the paired test equals the one-sample trimmed test on the differences, with all fields (statistic, degrees of freedom, p-value, standard error, sample size, difference, interval, control average) consistent; samples of different lengths raise a ValueError.",
  ["inputs", "configurations"], "every pair of aligned samples and option combination",
  "The tests compare a few samples against golden numbers.",
  [ST], [("paired test", ST + ": yuens_t_test_paired")],
  ["every field of the result versus an independent implementation"], "Independent implementation plus scipy.stats.ttest_rel without trimming.", REF)
P("S05", "Significance, p-value and confidence interval never contradict each other",
  "In every result, significance is reported exactly when the p-value is below alpha and exactly when the absolute interval excludes zero; the interval contains the point estimate, gets wider as alpha shrinks, and is one-sided exactly for one-sided alternatives, whose p-values sum to one. Swapping the samples mirrors the result, adding a constant to both changes only the levels, rescaling only rescales, and reordering items changes nothing.",
  ["inputs", "configurations"], "every sample pair, test kind, alternative and alpha",
  "No test compares the three outputs for consistency or applies symmetries.",
  [ST], [("inference from statistics", ST + ": ttest_from_stats"), ("interval", ST + ": absolute_difference_confidence_interval")],
  ["pairs of related executions"], "Metamorphic monitors on pairs of calls; no reference implementation needed.", META)
P("S06", "Relative effect intervals follow Fieller and contain the estimate",
  "For non-negative means the relative difference is treatment over control minus one, and its interval is the range of relative differences not rejected by the test on the same data (Fieller), never below -100%, unbounded when the control mean is not distinguishable from zero, and always containing the estimate. It is invariant to the metric's units, excludes zero only for significant results, and is absent when a mean is negative.",
  ["inputs", "configurations"], "every combination of means, standard errors, correlation, alternative and alpha, in any units",
  "The tests check a few golden intervals; unit changes, tiny metrics, unbounded regions and agreement with the test are not sampled.",
  [ST], [("Fieller interval", ST + ": relative_difference_confidence_interval")],
  ["interval bounds versus test inversion by bisection"], "Oracle: direct inversion of the t-test on mean_1 - r*mean_2, independent of the quadratic formula.", REF)
P("S07", "Ratio metrics are compared by the delta method",
  "For ratio metrics the tests compare ratios of (trimmed) means with delta-method variances including the covariance of numerator and denominator; with a constant denominator this equals the plain test on the scaled metric, and the result is invariant to jointly scaling numerator and denominator. Giving a denominator for only one sample raises a ValueError.",
  ["inputs", "configurations"], "every numerator/denominator sample and test kind",
  "The tests check a few golden values with one correlation structure.",
  [ST], [("delta method", ST + ": yuens_t_test_ind / yuens_t_test_paired with denominators")],
  ["every field of the result versus an independent gradient-based delta method"], "Oracle uses a numerical gradient of the ratio, not the closed form.", REF)
P("S08", "The minimum detectable effect is exactly what reaches the target power",
  "The minimum detectable effect equals the standard error times the sum of the critical and power quantiles, is positive, scales with the standard deviation, shrinks with sample size and with larger alpha, and grows with power, for scalars and arrays alike. An effect of that size is significant with the target probability.",
  ["configurations"], "every standard deviation, sample size, alpha, power and alternative",
  "The tests check a few golden values.",
  [ST], [("minimum detectable effect", ST + ": calculate_minimum_detectable_effect_from_stats")],
  ["effect sizes versus numerical quantiles and monotonicity over pairs"], "Oracle: quantiles by bisection on an independently integrated t density.", REF)
P("S09", "Tests have the promised error rate, coverage and power",
  "On repeatedly generated data with no effect, tests are significant at rate alpha and p-values are uniform; intervals cover the true absolute and relative effect at rate one minus alpha; and a true effect of the size of the minimum detectable effect is found at the target power. This holds for two-sample and paired tests, with trimming, covariate adjustment, crossover alignment and ratio metrics.",
  ["inputs"], "repeated experiments from many data-generating processes and designs",
  "The tests run single samples; a calibration error is invisible on any single input.",
  [ST, EA], [("two-sample and paired tests", ST + ": yuens_t_test_ind / yuens_t_test_paired"), ("analysis", EA + ": analyze_single_metric")],
  ["rejection, coverage and power counts"], "Binomial monitors with tolerance bands plus 1e-7 thresholds.", STATM)

# ---------------------------------------------------------------- analysis
P("A01", "Every week of the experiment gets exactly its designed period label",
  "For every design and start week, weeks before the pretest and after the runtime are unlabelled, the pretest weeks immediately precede the start, a regular test covers exactly the runtime weeks, and a crossover splits the runtime into first washout, first test, second washout and second test of equal halves. Labels depend only on the week, and an existing label column or a missing week column raises a ValueError.",
  ["configurations", "inputs"], "every design, start week and set of weeks (negative, unordered, gappy)",
  "The tests label one calendar per experiment type.",
  [EA], [("labels", EA + ": add_time_period_column")],
  ["label of every row"], "Oracle: independent walk through the calendar.", REF)
P("A02", "Pivoting yields each item's weekly average per period, losing nothing",
  "Pivoting gives one row per item (and assignment) with, for every metric and period, the sum of its rows in that period divided by the number of designed weeks of the period; multiplying back recovers the raw totals, and rows outside the designed windows contribute nothing. Column and index names are respected, and missing or clashing columns raise a ValueError.",
  ["inputs", "configurations"], "every dataset (daily or weekly rows, shuffled, missing rows), design and start week",
  "The tests pivot small aligned frames.",
  [EA], [("pivot", EA + ": pivot_time_assignment")],
  ["pivoted cells versus dictionary sums of raw rows"], "Oracle: dictionary sums and designed week counts.", REF)
P("A03", "The analysis of an experiment equals the designed test on each metric",
  "Analysing an experiment returns one row per requested metric, in order, equal to the designed test for that metric: covariate-adjusted two-sample trimmed test for regular designs, and aligned paired test (period effects removed when there is no trimming) for crossovers, at the design's alpha, with the design's trimming unless overridden for that metric, and ratio metrics by numerator and denominator.",
  ["inputs", "configurations"], "every dataset, design and list of metrics",
  "The tests analyse one dataset per design type with default alpha and compare selected columns.",
  [EA, ST], [("analysis", EA + ": analyze_experiment"), ("single metric", EA + ": analyze_single_metric")],
  ["every field of every row versus an independent end-to-end recomputation from raw rows"], "Oracle: reference pivot, CUPED, alignment and tests from raw rows.", REF)
P("A04", "A planted effect is recovered and period effects cancel",
  "Adding a constant effect to every treated item-week raises the estimated absolute difference by exactly that effect: in regular designs (with covariate adjustment if nothing is trimmed and the groups have equal pretest averages) and in crossovers (if nothing is trimmed, for groups of equal size). Any changes in washout weeks or in weeks outside the experiment leave every result as it was. In untrimmed crossovers a shift common to all items in one period does not move the estimate or its interval.",
  ["inputs", "histories"], "every dataset and design, effect sizes of both signs",
  "No test compares analyses of related datasets.",
  [EA], [("alignment and demeaning", EA + ": analyze_single_metric"), ("windows", EA + ": pivot_time_assignment")],
  ["pairs of analyses of related datasets"], "Metamorphic monitors over pairs of full analyses.", META)
P("A05", "Results do not depend on row order, item names or irrelevant data",
  "Shuffling rows, renaming items or columns, changing index labels, adding unrelated columns, rows outside the analysed weeks, or further metrics never changes a metric's results, and rescaling a metric rescales its absolute results and leaves its relative results and p-value unchanged. Exchanging treatment and control labels mirrors the absolute effect of a plain metric.",
  ["inputs", "histories"], "every dataset, design and irrelevant change",
  "No test compares analyses of related datasets.",
  [EA], [("analysis", EA + ": analyze_experiment")],
  ["pairs of analyses of related datasets"], "Metamorphic monitors over pairs of full analyses.", META)
P("A06", "The displayed results report the numbers of the analysis",
  "The formatted result table shows, for every metric, the point estimates, intervals and p-value of the analysis at the requested precision, the interval label of the analysis' alpha, yearly projections of 52 weeks times the sample size, a significance note exactly for significant metrics, and green, red or grey exactly for significant increases, decreases and insignificant results. Unrequested sections are not shown.",
  ["inputs", "configurations"], "every result table (large, tiny, infinite or missing values) and option combination",
  "The tests check that a styled table is returned for one table.",
  [EA], [("formatting", EA + ": format_experiment_analysis_results_dataframe")],
  ["numbers parsed back from the rendered table versus the results"], "Parses the rendered html and compares numerically.", REF)

# ---------------------------------------------------------------- simulations
P("M01", "The candidate designs are exactly the valid combinations",
  "The generated designs are exactly the valid designs among all combinations of the candidate values, regular and/or crossover as allowed, each once per combination and carrying the requested values; combinations that cannot be run (odd or too short crossovers, pre-trimming without pretest weeks) are left out. Allowing crossover without washout weeks raises a ValueError.",
  ["configurations"], "every set of candidate values",
  "The tests enumerate two candidate grids.",
  [ES, ED], [("design generation", ES + ": generate_all_valid_designs")],
  ["the multiset of designs versus brute-force enumeration"], "Grids whose trims are always satisfiable; otherwise raise-or-exact.", REF)
P("M02", "Simulated experiments only start where all their weeks have data",
  "The earliest start week leaves room for the longest pretest before it and the simulations' start weeks are exactly those from it to the last week that leaves room for the runtime; too little history or empty candidates raise a ValueError. Every simulated experiment starts in one of those weeks and, over many simulations, in each of them equally often.",
  ["configurations", "histories"], "every set of candidate weeks and historical weeks (unordered, negative, offset)",
  "The tests check a few fixed lists.",
  [ES], [("start weeks", ES + ": calculate_minimum_start_week_id"), ("valid start weeks", ES + ": SimulationAnalysis.valid_start_week_ids")],
  ["start weeks reported and observed during simulations"], "Observed by monitoring calls of the public pivot function during validation.", REF)
P("M03", "The estimated detectable effect reflects the design on the real history",
  "The estimated average, standard deviation and minimum detectable effect of a design equal those of the designed metric (pre-trimmed, covariate-adjusted or crossover-differenced, post-trimmed) averaged over all valid start weeks, at the design's alpha and power, and the relative effect is their ratio. The estimate is reproducible, repeating it changes nothing, and item counts that contradict the design raise a RuntimeError.",
  ["inputs", "configurations"], "every historical dataset and design",
  "The tests check one or two fixed datasets.",
  [ES, ST], [("estimation", ES + ": SimulationAnalysis.estimate_minimum_detectable_effect")],
  ["estimates versus independent recomputation from raw history"], "Oracle: reference pivot, trimming and statistics from raw rows.", REF)
P("M04", "Design validation simulates faithful A/A and A/B experiments",
  "Validating a design runs the requested number of simulated experiments on as many items as designed, drawn from the history with replacement and pre-trimmed as designed, split at random one half each. It analyses the same split twice, once as is and once with the minimum detectable effect added to exactly the treated items' test periods. Recorded results are those of the analyses of the latest validation, and calling it before estimation raises a RuntimeError.",
  ["inputs", "histories"], "every historical dataset, design and random state",
  "The tests run a handful of simulations on one dataset and check a few columns.",
  [ES], [("simulation loop", ES + ": SimulationAnalysis.validate_design")],
  ["datasets entering the analysis during every simulated experiment (call monitoring) and the recorded results"], "sys.monitoring observes the public analysis calls; output-level monitors when they are not reached.", "runtime monitoring: call-trace monitor (sys.monitoring) with offline conservation checks")
P("M05", "Robustness verdicts follow from the recorded simulations",
  "The simulated false positive rate, power and the five robustness p-values and verdicts equal their definitions applied to the recorded simulation results, the design's alpha and power and the threshold; the overall verdict is their conjunction. Before validation they are all absent, and the summary table shows the same values for every design, ordered as requested.",
  ["histories", "configurations"], "every set of recorded simulations, alpha, power and threshold",
  "The tests check verdicts for a few recorded results with default alpha and power.",
  [ES], [("verdicts", ES + ": SimulationAnalysis robustness properties"), ("summary", ES + ": make_analysis_summary_dataframe")],
  ["verdicts versus recomputation from the recorded results"], "Oracle: exact binomial sums, Kolmogorov-Smirnov and one-sample t recomputed independently.", REF)
P("M06", "The displayed design comparison reports every design's values",
  "The formatted comparison shows every design with its own values, moves to the caption exactly the design parameters shared by all designs with their common value, hides validation columns when asked, and colours passed and failed checks accordingly, before and after validation. The numbers shown are those of the summary.",
  ["inputs", "configurations"], "every list of analysed designs, validated or not",
  "The tests check that a styled table is returned for one list.",
  [ES], [("formatting", ES + ": format_analysis_summary_dataframe")],
  ["cells and caption parsed back from the rendered table"], "Parses the rendered html and compares numerically.", REF)
P("M07", "Random splits and synthetic effects touch only what they should",
  "Random treatment assignment gives every item exactly one of two arms, consistently over its rows, with probability one half independently of the data and reproducibly from the random state, and keeps all metric values. Synthetic effects add the effect to exactly the treated period of each item, and missing or clashing columns raise a ValueError.",
  ["inputs", "configurations"], "every pivoted dataset, naming and random state",
  "The tests use one small frame.",
  [ES], [("random split", ES + ": apply_random_treatment_assignment"), ("synthetic effect", ES + ": apply_synthetic_treatment_effect")],
  ["every cell before and after, split counts over seeds"], "Cell-level oracle plus binomial monitors.", REF)

# ---------------------------------------------------------------- plots
P("V01", "History and deep dive plots draw exactly the data they are given",
  "The history plot draws the true total of the metric for every week, and over the items' weekly averages the share of items with at least each value and the Lorenz curve (share of the total held by the top share of items), dropping and double counting nothing. The deep dive plot counts every simulated effect and p-value of the A/A and A/B simulations exactly once, marks zero and the minimum detectable effect, and raises a ValueError before validation.",
  ["inputs"], "every historical dataset (ties, zeros, shuffled rows, any column names) and every set of simulation results",
  "The tests only check that figures are created and compare a few of their calls.",
  [PL], [("history plot", PL + ": plot_metric_history"), ("deep dive plot", PL + ": plot_deep_dive")],
  ["artists of the returned axes versus recomputed series"], "Reads the drawn artists from matplotlib axes.", REF)
P("V02", "The metric over time plot shows the data per date and marks the design",
  "The plot draws for every date the averages of treatment and control, their difference and its normal confidence interval at the design's alpha, adjusted per date by the pretest data when asked, for any column names and row order. The experiment start, crossover and washout weeks are marked at exactly the dates where the data's period labels have them.",
  ["inputs", "configurations"], "every experiment dataset, design and option combination",
  "The tests only check that figures are created.",
  [PL], [("time plot", PL + ": plot_metric_over_time")],
  ["artists of the returned axes versus recomputed series"], "Reads the drawn artists from matplotlib axes.", REF)
P("V03", "The effects plot draws every metric's own estimate and interval",
  "The effects plot draws every metric's relative estimate and interval beside its own name, dashed exactly if it is not significant, with the primary metric set apart. Unbounded sides are drawn as arrows that point away from the estimate, unbounded, missing or single results never make it fail, and a missing primary metric raises a ValueError.",
  ["inputs"], "every result table",
  "The tests only check that figures are created for one table.",
  [PL], [("effects plot", PL + ": plot_effects")],
  ["artists of the returned axes versus the results"], "Reads the drawn artists from matplotlib axes.", REF)

# ---------------------------------------------------------------- whole lifecycle
P("E01", "A whole experiment from history to report is exact and reproducible",
  "Running the documented workflow (prepare history, choose a design, randomise, save and reload the design, prepare the results, analyse, report) yields the independently recomputed result at the end, whatever the data. Repeating it from the same inputs, random state and coinflip salt reproduces every intermediate and final output, and an assignment or design from another experiment is rejected by validation.",
  ["histories", "inputs"], "whole workflow histories over random data, designs and mix-ups",
  "No test chains the steps; each is tested with hand-made inputs of the previous one.",
  [DP, EA, ED, ES], [("workflow", "notebooks/01_experiment_designer.ipynb, notebooks/02_experiment_analyzer.ipynb")],
  ["every intermediate output of the workflow and the final report"], "Reference model of the complete workflow; mix-ups injected.", "runtime monitoring: end-to-end reference-model oracle over workflow histories")

P("E02", "The shipped notebooks carry an experiment from the user's files to the report",
  "Running the cells of the shipped notebooks in order, with their form fields set for the user's CSV files or Google Sheets (leading lines, thousands separators, custom and negative metrics, more than one candidate, any primary metric they offer), exports a design and an assignment of exactly the eligible items, and, from those exported files and the experiment's performance data, shows the independently recomputed result of every metric. A design that was not validated, or failed its validation, is not exported; negative values stop the notebook unless their check is skipped; an unfinished experiment can be plotted; and the notebooks run to the end on their own demo data with their own defaults.",
  ["histories", "inputs", "configurations"], "every form field combination, file layout and history of a user",
  "The tests never run the notebooks, which hold the steps that join the library's functions.",
  [DP, EA, ED, ES, PL], [("notebooks", "notebooks/01_experiment_designer.ipynb, notebooks/02_experiment_analyzer.ipynb")],
  ["the exported files, the displayed tables and the variables of the notebooks, cell by cell"], "Google's services are replaced by stand-ins that keep sheets of strings in memory.", "runtime monitoring: end-to-end reference-model oracle over the cells of the shipped notebooks")
