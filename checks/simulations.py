"""M01-M05, M07: choosing and validating designs by simulation."""

import contextlib
import dataclasses
import itertools
import math
import sys

import numpy as np
import pandas as pd
from scipy import special
from scipy import stats

from feedx import experiment_analysis as ea
from feedx import experiment_design
from feedx import experiment_simulations as es

from mon import core
from mon import gen
from mon import ref

PROPS = {}
ExperimentDesign = experiment_design.ExperimentDesign
LIMIT = 1e-9  # The chance of a false alarm of a single statistical monitor.


def binomial_extreme(k, n, p):
  """The two-sided p-value of k of n."""
  return min(1.0, 2 * min(stats.binom.cdf(k, n, p), stats.binom.sf(k - 1, n, p)))


# ------------------------------------------------------------------------ M01
M01 = PROPS["M01"] = core.Property(
    "M01",
    rule="Grids of 1 to 4 candidates per parameter in any kind of collection, with infeasible "
    "combinations, all settings of the two flags and washouts. distinct = grids.",
    require={"grids": 150, "designs": 3000, "both_kinds": 30, "left_out": 500, "nothing_allowed": 5,
             "infeasible_grid": 15, "rejected": 20})


def _subset(rng, options, low=1, high=4):
  size = min(len(options), int(rng.integers(low, high + 1)))
  chosen = [options[i] for i in rng.permutation(len(options))[:size]]
  return gen.pick(rng, [list, tuple, np.array, lambda c: pd.Series(c, index=range(5, 5 + len(c)))])(chosen)


@M01.scenario(quick=300, thorough=5000)
def grids(ctx, rng):
  feasible = gen.chance(rng, 0.85)
  n = int(gen.pick(rng, [500, 1000, 12345, int(rng.integers(600, 5000))])) if feasible else int(rng.integers(51, 140))
  candidates = dict(
      candidate_runtime_weeks=_subset(rng, list(range(1, 13))),
      candidate_pretest_weeks=_subset(rng, list(range(0, 7)), high=3),
      candidate_pre_trim_top_percentiles=_subset(rng, [0.0, 0.001, 0.005, 0.01, 0.05, 0.1, 0.29] if feasible else [0.0, 0.1, 0.5, 0.7], high=3),
      candidate_pre_trim_bottom_percentiles=_subset(rng, [0.0, 1e-6, 0.004, 0.01, 0.02, 0.1] if feasible else [0.0, 0.2, 0.5], high=3),
      candidate_post_trim_percentiles=_subset(rng, [0.0, 0.003, 0.01, 0.05, 0.25] if feasible else [0.0, 0.1, 0.3], high=3))
  crossover, regular = gen.pick(rng, [(True, True), (True, True), (True, False), (False, True), (False, False)])
  washout = int(rng.integers(0, 4)) if crossover else gen.pick(rng, [None, 2])
  metric = gen.pick(rng, gen.NAMES)
  want, infeasible, combinations = [], 0, 0
  for combination in itertools.product(*candidates.values()):
    for is_crossover in [True] * crossover + [False] * regular:
      combinations += 1
      params = dict(zip(["runtime_weeks", "pretest_weeks", "pre_trim_top_percentile", "pre_trim_bottom_percentile",
                         "post_trim_percentile"], combination),
                    n_items_before_trimming=n, is_crossover=is_crossover,
                    crossover_washout_weeks=washout if is_crossover else None)
      problems = ref.design_problems(params)
      if not problems:
        want.append(tuple(map(float, combination)) + (is_crossover, washout if is_crossover else None))
      elif set(problems) & {"pre-trim sum", "post-trim", "too few items"}:
        infeasible += not set(problems) - {"pre-trim sum", "post-trim", "too few items"}
  ctx.event("grids")
  ctx.event("both_kinds", crossover and regular)
  ctx.event("nothing_allowed", not crossover and not regular)
  ctx.event("infeasible_grid", infeasible > 0)
  ctx.event("left_out", combinations - len(want))
  ctx.distinct(n, crossover, regular, washout, tuple(map(tuple, candidates.values())))
  kind, got = core.outcome(
      es.generate_all_valid_designs, n_items_before_trimming=n, crossover_design_allowed=crossover,
      traditional_design_allowed=regular, primary_metric=metric, crossover_washout_weeks=washout, **candidates)
  about = dict(n=n, crossover=crossover, regular=regular, washout=washout, **{k: list(v) for k, v in candidates.items()})
  if kind == "error":
    # Candidates that ask for more trimming than there are items may be rejected as a whole.
    ctx.check(infeasible > 0 and isinstance(got, ValueError), f"a valid grid was rejected: {got}", **about)
    return
  found = []
  for d in got:
    ctx.check(isinstance(d, ExperimentDesign), "not a design")
    ctx.equal((d.n_items_before_trimming, d.primary_metric), (n, metric), "not the requested metric or items", **about)
    ctx.equal((d.alpha, d.power, d.coinflip_salt), (0.05, 0.8, None), "not the default alpha, power or salt")
    found.append(tuple(map(float, (d.runtime_weeks, d.pretest_weeks, d.pre_trim_top_percentile, d.pre_trim_bottom_percentile,
                                   d.post_trim_percentile))) + (bool(d.is_crossover), d.crossover_washout_weeks if d.is_crossover else None))
  ctx.event("designs", len(found))
  key = lambda t: tuple(-1 if v is None else v for v in t)
  ctx.check(sorted(found, key=key) == sorted(want, key=key), "not exactly the valid combinations",
            missing=list(set(want) - set(found))[:5], unexpected=list(set(found) - set(want))[:5],
            got=len(found), want=len(want), **about)
  ctx.equal(len({d.design_id for d in got}), len(got), "two designs have the same identifier")
  ctx.sample(got=len(found), combinations=combinations, **about)


@M01.scenario(quick=30, thorough=200)
def no_washout(ctx, rng):
  ctx.event("rejected")
  with ctx.raises(ValueError, "a crossover without washout weeks was allowed"):
    es.generate_all_valid_designs(1000, True, gen.chance(rng, 0.5), gen.pick(rng, [[2, 4], [3], [1, 6]]), [0, 2],
                                  [0.0], [0.0], [0.0], "clicks", gen.pick(rng, [None]))


# ----------------------------------------------------------------- simulations
def history(rng, design, n, extra_weeks=None, kind="continuous", ids=None):
  """Complete weekly history: the frame and {item: {week: value}}."""
  first = int(rng.integers(-10, 30))
  n_weeks = design.pretest_weeks + design.runtime_weeks + (int(rng.integers(0, 5)) if extra_weeks is None else extra_weeks)
  values = gen.weekly_metric(rng, n, n_weeks, kind) * 10.0 ** rng.uniform(-3, 4)
  whole = gen.chance(rng, 0.15)  # for example a cost in micros
  if whole:
    values = np.floor(values * 1e8)
  ids = ids or gen.item_ids(rng, n)
  item, week = gen.pick(rng, ["item_id", "offer"]), gen.pick(rng, ["week_id", "w"])
  data = pd.DataFrame({
      item: np.repeat(np.array(ids, dtype=object), n_weeks), week: np.tile(np.arange(first, first + n_weeks), n),
      design.primary_metric: values.ravel().astype(np.int64 if whole else float)})
  if gen.chance(rng, 0.3):
    data["other"] = 1.0
  data = gen.shuffled(rng, gen.maybe_categorical(rng, data, item))
  if gen.chance(rng, 0.5):
    data = data.reset_index(drop=True)
  elif gen.chance(rng, 0.3):
    data.index = gen.row_labels(rng, len(data))
  return data, values, ids, first, item, week


def periods_of(values, first, start, design):
  """{period: weekly average per item} from the (item, week) matrix."""
  counts = ref.period_weeks(design)
  out = {}
  for k in range(values.shape[1]):
    label = ref.period_label(first + k, start, design)
    if label is not None:
      out[label] = out.get(label, 0.0) + values[:, k]
  return {p: v / counts[p] for p, v in out.items()}


def simulation(rng, design, data, item, week, minimum, **kwargs):
  if gen.chance(rng, 0.3):
    # Other column names, because the default ones are taken.
    data = data.assign(time_period=gen.pick(rng, ["test", 1]), treatment=-1)
    kwargs = dict(dict(time_period_column="the period", treatment_column="the arm"), **kwargs)
  return es.SimulationAnalysis(
      design=design, historical_data=data, item_id_column=item, week_id_column=week, minimum_start_week_id=minimum,
      rng=np.random.default_rng(int(rng.integers(2**31))), **kwargs)


@contextlib.contextmanager
def watch(function, argument, record):
  """Calls record(argument's value) whenever the function is entered."""
  monitoring = sys.monitoring
  tool = 4
  code = getattr(function, "__code__", None)

  def started(code_, offset):
    del offset
    frame = sys._getframe(1)  # pylint: disable=protected-access
    if frame.f_code is code_ and argument in frame.f_locals:
      record(frame.f_locals[argument])

  monitoring.use_tool_id(tool, "feedx monitors")
  try:
    monitoring.register_callback(tool, monitoring.events.PY_START, started)
    if code is not None:
      monitoring.set_local_events(tool, code, monitoring.events.PY_START)
    yield
  finally:
    if code is not None:
      monitoring.set_local_events(tool, code, 0)
    monitoring.register_callback(tool, monitoring.events.PY_START, None)
    monitoring.free_tool_id(tool)


def sim_design(rng, n, **kwargs):
  long = gen.chance(rng, 0.08)
  kwargs = dict(dict(n_items=n, max_runtime=14 if long else 4, max_pretest=8 if long else 3), **kwargs)
  return gen.design(rng, **kwargs)


# ------------------------------------------------------------------------ M02
M02 = PROPS["M02"] = core.Property(
    "M02",
    rule="Lists of candidate weeks and historical weeks (unordered, repeated, negative), too short "
    "histories, and the start weeks of thousands of simulated experiments. distinct = (weeks, candidates).",
    require={"start_weeks": 300, "too_short": 60, "exactly_enough": 40, "empty": 20, "ranges": 100,
             "simulated_starts": 2000})


@M02.scenario(quick=600, thorough=10000)
def earliest_start(ctx, rng):
  runtimes = [int(v) for v in rng.integers(1, 13, int(rng.integers(1, 5)))]
  pretests = [int(v) for v in rng.integers(0, 9, int(rng.integers(1, 5)))]
  needed = max(runtimes) + max(pretests)
  n_weeks = needed + int(gen.pick(rng, [-1, 0, 0, 1, 5, int(rng.integers(-needed + 1, 20))]))
  first = int(rng.integers(-40, 60))
  weeks = np.arange(first, first + max(1, n_weeks))
  n_weeks = len(weeks)
  weeks = np.concatenate([weeks, rng.choice(weeks, int(rng.integers(0, 6)))])
  rng.shuffle(weeks)
  collection = gen.pick(rng, [list, np.array, tuple, set, pd.Series])
  args = [gen.pick(rng, [list, tuple, np.array])(runtimes), gen.pick(rng, [list, tuple, np.array])(pretests),
          collection(weeks.tolist())]
  ctx.distinct(tuple(runtimes), tuple(pretests), first, n_weeks)
  if n_weeks < needed:
    ctx.event("too_short")
    with ctx.raises(ValueError, "too little history was accepted", weeks=n_weeks, needed=needed):
      es.calculate_minimum_start_week_id(*args)
    return
  ctx.event("exactly_enough", n_weeks == needed)
  got = es.calculate_minimum_start_week_id(*args)
  ctx.event("start_weeks")
  ctx.equal(int(got), first + max(pretests), "wrong earliest start week", runtimes=runtimes, pretests=pretests, first=first)
  ctx.check(got - max(pretests) >= first and got + max(runtimes) <= first + n_weeks, "the experiment leaves the history")
  if gen.chance(rng, 0.1):
    ctx.event("empty")
    k = int(rng.integers(3))
    with ctx.raises(ValueError, "empty candidates were accepted"):
      es.calculate_minimum_start_week_id(*[[] if i == k else a for i, a in enumerate(args)])
  ctx.sample(runtimes=runtimes, pretests=pretests, first=first, weeks=n_weeks, got=got)


@M02.scenario(quick=160, thorough=3000)
def range_of_starts(ctx, rng):
  n = int(rng.integers(52, 70))
  design = sim_design(rng, n, max_runtime=6)
  data, _, _, first, item, week = history(rng, design, n)
  last = int(data[week].max())
  minimum = first + design.pretest_weeks + int(rng.integers(0, 2))
  a = simulation(rng, design, data, item, week, minimum)
  ctx.event("ranges")
  want = [s for s in range(first - 20, last + 20) if s >= minimum and s + design.runtime_weeks - 1 <= last]
  ctx.equal([int(v) for v in a.valid_start_week_ids], want, "not the start weeks with enough data", first=first, last=last,
            minimum=minimum, runtime=design.runtime_weeks)
  ctx.equal((int(a.minimum_start_week_id), int(a.maximum_start_week_id)), (minimum, last - design.runtime_weeks + 1),
            "wrong first or last start week")


@M02.scenario(quick=16, thorough=120)
def simulated_starts(ctx, rng):
  """The start week of every simulation, read from the level of its data."""
  n = int(rng.integers(52, 60))
  design = sim_design(rng, n, max_runtime=4, max_pretest=2, pretrim=False)
  extra = int(rng.integers(1, 6))
  n_simulations = 180
  if gen.chance(rng, 0.15):
    extra = int(rng.integers(27, 40))
    n_simulations = 35 * extra
    ctx.event("long_histories")
  data, values, ids, first, item, week = history(rng, design, n, extra_weeks=extra)
  # Every set of consecutive weeks has its own level; items hardly differ.
  level = 2.0 ** (data[week] - first)
  data[design.primary_metric] = level * (1 + 1e-3 * rng.random(len(data)))
  minimum = first + design.pretest_weeks
  starts = list(range(minimum, minimum + extra + 1))
  a = simulation(rng, design, data, item, week, minimum)
  with core.captured():
    a.estimate_minimum_detectable_effect()
    a.validate_design(n_simulations=n_simulations, progress_bar=False)
  expected = {}
  for s in starts:
    weeks = [w for w in range(s, s + design.runtime_weeks)
             if not (ref.period_label(w, s, design) or "").startswith("washout")]
    expected[s] = np.mean([2.0 ** (w - first) for w in weeks])
  counts = dict.fromkeys(starts, 0)
  for value in a.aa_simulation_results["control_average"]:
    distance = {s: abs(math.log(max(value, 1e-9) / v)) for s, v in expected.items()}
    s = min(distance, key=distance.get)
    # Crossover averages lie between those of the periods.
    ctx.check(distance[s] < (0.35 if design.is_crossover else 0.01), "an experiment used other weeks",
              value=value, expected=expected, design=str(design))
    counts[s] += 1
    ctx.event("simulated_starts")
  ctx.distinct(design.design_id, len(starts))
  for s, k in counts.items():
    ctx.check(binomial_extreme(k, n_simulations, 1 / len(starts)) > LIMIT, "start weeks are not equally likely", counts=counts)
  ctx.sample(counts=counts, runtime=design.runtime_weeks, pretest=design.pretest_weeks)


# ------------------------------------------------------------------------ M03
M03 = PROPS["M03"] = core.Property(
    "M03",
    rule="Complete weekly histories of 52 to 160 items, all kinds of designs, earliest start weeks, "
    "alphas and powers. distinct = (design, history).",
    require={"estimates": 120, "crossover": 30, "cuped": 20, "pretrimmed": 20, "posttrimmed": 30, "many_starts": 60,
             "contradicting_counts": 20, "reproduced": 60, "repeated": 40, "after_validation": 10, "long_histories": 10})


@M03.scenario(quick=240, thorough=6000)
def estimated(ctx, rng):
  n = gen.size(rng, 52, 160, 2500, 0.03)
  design = sim_design(rng, n)
  extra = int(rng.integers(26, 60)) if gen.chance(rng, 0.1) else None
  ctx.event("long_histories", extra is not None)
  data, values, ids, first, item, week = history(rng, design, n, extra_weeks=extra)
  last = first + values.shape[1] - 1
  minimum = min(first + design.pretest_weeks + int(rng.integers(0, 2)), last - design.runtime_weeks + 1)
  q = design.post_trim_percentile
  averages, variances, size = [], [], None
  for start in range(minimum, last - design.runtime_weeks + 2):
    p = periods_of(values, first, start, design)
    if design.pretest_weeks:
      order = np.argsort(p["pretest"], kind="stable")
      keep = order[ref.n_floor(design.pre_trim_bottom_percentile, n): n - ref.n_floor(design.pre_trim_top_percentile, n)]
      p = {k: v[keep] for k, v in p.items()}
    if design.is_crossover:
      t = ref.Trimmed(np.stack([p["test_1"] - p["test_2"], p["test_1"], p["test_2"]]), q)
      averages.append((t.mean[1] + t.mean[2]) / 2)
      # With trimming the period effect is not removed in the analysis.
      variances.append(t.var(1)[0] + (t.mean[0] ** 2 if q > 0 else 0.0))
    else:
      y = ref.cuped(p["test"], p["pretest"], q) if design.pretest_weeks else p["test"]
      if y is None:
        return
      t = ref.Trimmed(y, q)
      averages.append(t.mean[0])
      variances.append(t.var(1)[0])
    size = t.h
  average, sd = np.mean(averages), math.sqrt(np.mean(variances))
  df = size - 1 if design.is_crossover else size - 2
  se = sd / math.sqrt(size) if design.is_crossover else sd * math.sqrt(4 / size)
  mde = se * (ref.critical(df, "two-sided", design.alpha) + ref.t_quantile(design.power, df))
  a = simulation(rng, design, data, item, week, minimum)
  ctx.equal((a.minimum_detectable_effect, a.relative_minimum_detectable_effect, a.primary_metric_average), (None,) * 3,
            "not absent before the estimation")
  before = gen.frame_fingerprint(data)
  a.estimate_minimum_detectable_effect()
  ctx.equal(gen.frame_fingerprint(data), before, "the history was modified")
  ctx.event("estimates")
  ctx.event("crossover", design.is_crossover)
  ctx.event("cuped", not design.is_crossover and design.pretest_weeks > 0)
  ctx.event("pretrimmed", size + 2 * ref.n_floor(q, n) < n and design.pre_trim_top_percentile > 0)
  ctx.event("posttrimmed", q > 0)
  ctx.event("many_starts", len(averages) > 1)
  ctx.distinct(design.design_id, values.shape)
  about = dict(design=str(design), starts=len(averages))
  ctx.close(a.primary_metric_average, average, "wrong average", rtol=1e-8, **about)
  ctx.close(a.primary_metric_standard_deviation, sd, "wrong standard deviation", rtol=1e-7, **about)
  ctx.close(a.minimum_detectable_effect, mde, "wrong minimum detectable effect", rtol=1e-7, **about)
  ctx.close(a.relative_minimum_detectable_effect, mde / average, "wrong relative effect", rtol=1e-7, **about)
  ctx.equal((a.aa_simulation_results, a.ab_simulation_results), (None, None), "simulation results before the validation")
  # Estimating again changes nothing, also after a validation.
  if gen.chance(rng, 0.4):
    ctx.event("repeated")
    if gen.chance(rng, 0.4):
      ctx.event("after_validation")
      with core.captured():
        a.validate_design(n_simulations=2, progress_bar=False)
      ctx.close(a.minimum_detectable_effect, mde, "the validation changed the minimum detectable effect", rtol=1e-7, **about)
    a.estimate_minimum_detectable_effect()
    ctx.close([a.primary_metric_average, a.primary_metric_standard_deviation, a.minimum_detectable_effect,
               a.relative_minimum_detectable_effect], [average, sd, mde, mde / average],
              "a repeated estimation gives something else", rtol=1e-7, **about)
  # Reproducible, also in other row order and by another random state: there are no ties.
  again = simulation(rng, design, gen.shuffled(rng, data), item, week, minimum)
  again.estimate_minimum_detectable_effect()
  ctx.event("reproduced")
  ctx.close(again.minimum_detectable_effect, a.minimum_detectable_effect, "not reproducible", rtol=1e-9, **about)
  ctx.close(again.primary_metric_average, a.primary_metric_average, "average not reproducible", rtol=1e-9, **about)
  if gen.chance(rng, 0.4):
    ctx.event("contradicting_counts")
    other = dataclasses.asdict(design)
    other = {k: v for k, v in other.items() if k not in ("n_items_after_pre_trim", "n_items_after_post_trim")}
    other["n_items_before_trimming"] = n + int(gen.pick(rng, [1, 2, 40]))
    if ref.design_problems(other):
      return
    wrong = simulation(rng, ExperimentDesign(**other), data, item, week, minimum)
    with ctx.raises(RuntimeError, "item counts that contradict the design were accepted", n=n, design=other):
      wrong.estimate_minimum_detectable_effect()
    ctx.equal(wrong.minimum_detectable_effect, None, "an effect was recorded although the estimation failed")
  ctx.sample(mde=mde, average=average, design=design.design_id, items=n, starts=len(averages))


# ------------------------------------------------------------------------ M04
M04 = PROPS["M04"] = core.Property(
    "M04",
    rule="Histories of 52 to 90 items with continuous metrics and all kinds of designs, 12 to 40 "
    "simulated experiments each; the datasets entering the analyses are observed by call monitoring. "
    "distinct = (design, history).",
    require={"validations": 60, "simulations": 1000, "many_items": 2, "crossover": 15, "cuped": 10, "pretrimmed": 10, "posttrimmed": 15,
             "exact_effects": 300, "independent_draws": 400, "too_early": 20, "reproduced": 10, "revalidated": 15, "default_arguments": 1})


def _exact_effect(design):
  """Is the effect added to the estimate known exactly?"""
  if design.is_crossover:
    return design.post_trim_percentile > 0
  return design.pretest_weeks == 0


@M04.scenario(quick=2, thorough=40)
def many_items(ctx, rng):
  validated(ctx, rng, n=int(rng.integers(1000, 3000)))
  ctx.event("many_items")


@M04.scenario(quick=96, thorough=2000)
def validated(ctx, rng, n=None):
  n_simulations = int(rng.integers(12, 41)) if n is None else 12
  n = n or int(rng.integers(56, 90))
  design = sim_design(rng, n, max_runtime=4, max_pretest=2)
  data, values, ids, first, item, week = history(rng, design, n)
  minimum = first + design.pretest_weeks
  seed = int(rng.integers(2**31))
  def make():
    return es.SimulationAnalysis(design=design, historical_data=data, item_id_column=item, week_id_column=week,
                                 minimum_start_week_id=minimum, rng=np.random.default_rng(seed))
  a = make()
  if gen.chance(rng, 0.4):
    ctx.event("too_early")
    with ctx.raises(RuntimeError, "validated before the estimation"):
      a.validate_design(n_simulations=2, progress_bar=False)
    ctx.equal((a.aa_simulation_results, a.all_robustness_checks_pass), (None, None), "results of a failed validation")
  a.estimate_minimum_detectable_effect()
  mde = a.minimum_detectable_effect
  seen = []
  before = gen.frame_fingerprint(data)
  with watch(ea.analyze_single_metric, "data", lambda d: seen.append(d.copy())), core.captured():
    a.validate_design(n_simulations=n_simulations, progress_bar=False)
  ctx.equal(gen.frame_fingerprint(data), before, "the history was modified")
  aa, ab = a.aa_simulation_results, a.ab_simulation_results
  ctx.event("validations")
  ctx.event("simulations", n_simulations)
  ctx.event("crossover", design.is_crossover)
  ctx.event("cuped", not design.is_crossover and design.pretest_weeks > 0)
  ctx.event("pretrimmed", design.n_items_after_pre_trim < n)
  ctx.event("posttrimmed", design.post_trim_percentile > 0)
  ctx.distinct(design.design_id, values.shape)
  about = dict(design=str(design), simulations=n_simulations)
  ctx.equal((len(aa), len(ab)), (n_simulations, n_simulations), "not the requested number of experiments")
  # The results alone.
  ctx.check(bool((aa["alpha"] == design.alpha).all() and (ab["alpha"] == design.alpha).all()), "not the design's alpha")
  if design.is_crossover:
    ctx.check(bool((aa["sample_size"] == design.n_items_after_post_trim).all()), "not the designed number of items", **about)
  elif design.post_trim_percentile == 0:
    ctx.check(bool((aa["sample_size"] == design.n_items_after_pre_trim).all()), "not the designed number of items", **about)
  ctx.check(np.array_equal(aa["sample_size"], ab["sample_size"]), "the A/B simulation used another split", **about)
  moved = ab["absolute_difference"] - aa["absolute_difference"]
  size = float(np.abs(values).max())
  if _exact_effect(design):
    ctx.event("exact_effects", n_simulations)
    ctx.close(moved, np.full(n_simulations, mde), "the effect added is not the minimum detectable effect", rtol=1e-7,
              atol=1e-10 * size, **about)
    for field in ("standard_error", "control_average"):
      ctx.close(ab[field], aa[field], f"the effect changed the {field}", rtol=1e-7, atol=1e-10 * size, **about)
  elif design.is_crossover:
    # 4 p (1 - p) times the effect, if a share p is treated first.
    ctx.check(bool((moved <= mde * (1 + 1e-9) + 1e-10 * size).all() and (moved >= 0.5 * mde).all()),
              "the effect added is not the minimum detectable effect", moved=moved, mde=mde, **about)
  else:
    ctx.check(bool((moved > 0).mean() > 0.8) and 0.5 < np.median(moved) / mde < 1.5,
              "the effect added is not the minimum detectable effect", moved=moved, mde=mde, **about)
  ctx.check(len(np.unique(aa["absolute_difference"])) >= n_simulations - 1, "experiments are repeated", **about)
  # A repeated validation replaces the results.
  if gen.chance(rng, 0.3):
    ctx.event("revalidated")
    m = int(gen.pick(rng, [1, 3, n_simulations, n_simulations + 5]))
    with core.captured():
      a.validate_design(n_simulations=m, progress_bar=gen.chance(rng, 0.5))
    aa2, ab2 = a.aa_simulation_results, a.ab_simulation_results
    ctx.equal((len(aa2), len(ab2)), (m, m), "a repeated validation does not give the requested number of experiments", **about)
    for one, other in ((aa, aa2), (ab, ab2)):
      common = set(one["absolute_difference"]) & set(other["absolute_difference"])
      ctx.check(len(common) < max(1, m / 2), "a repeated validation repeats the experiments", common=len(common), m=m, **about)
    if _exact_effect(design):
      ctx.close(ab2["absolute_difference"] - aa2["absolute_difference"], np.full(m, mde),
                "a repeated validation adds another effect", rtol=1e-7, atol=1e-10 * size, **about)
    a.aa_simulation_results, a.ab_simulation_results = aa, ab
  # The same random state gives the same simulations.
  if gen.chance(rng, 0.25):
    ctx.event("reproduced")
    b = make()
    b.estimate_minimum_detectable_effect()
    with core.captured():
      b.validate_design(n_simulations=n_simulations, progress_bar=False)
    ctx.check(b.aa_simulation_results.equals(aa) and b.ab_simulation_results.equals(ab), "not reproducible", **about)
  ctx.sample(design=design.design_id, simulations=n_simulations, observed_datasets=len(seen), mde=mde,
             fpr=float(np.mean(aa["is_significant"])), power=float(np.mean(ab["is_significant"])))
  if len(seen) != 2 * n_simulations:
    ctx.event("datasets_not_observed")
    return
  ctx.event("observed_datasets", len(seen))
  judge_datasets(ctx, a, seen, design, values, first, minimum, item, about)


@M04.scenario(quick=1, thorough=8)
def default_arguments(ctx, rng):
  """A validation the way a notebook calls it."""
  n = 56
  design = gen.design(rng, n_items=n, max_runtime=2, max_pretest=1, crossover=False, pretrim=False, posttrim=False)
  data, _, _, first, item, week = history(rng, design, n)
  a = simulation(rng, design, data, item, week, first + design.pretest_weeks)
  a.estimate_minimum_detectable_effect()
  with core.captured():
    a.validate_design()
  ctx.event("default_arguments")
  ctx.event("simulations", 1000)
  aa, ab = a.aa_simulation_results, a.ab_simulation_results
  ctx.equal((len(aa), len(ab)), (1000, 1000), "not the documented number of experiments")
  ctx.check(len(np.unique(aa["absolute_difference"])) >= 998, "experiments are repeated")
  false_positives = int((aa["p_value"] < design.alpha).sum())
  power = float((ab["p_value"] < design.alpha).mean())
  ctx.check(binomial_extreme(false_positives, 1000, min(0.99, design.alpha * 1.3)) > LIMIT
            or false_positives < 1300 * design.alpha, "too many false positives", found=false_positives, alpha=design.alpha)
  ctx.sample(false_positives=false_positives, alpha=design.alpha, power=power, asked=design.power)


def judge_datasets(ctx, a, seen, design, values, first, minimum, item, about):
  """Monitors of the datasets that entered the analyses."""
  n = len(values)
  metric, mde = design.primary_metric, a.minimum_detectable_effect
  size = float(np.abs(values).max())
  last = first + values.shape[1] - 1
  sources = {}
  for start in range(minimum, last - design.runtime_weeks + 2):
    p = periods_of(values, first, start, design)
    names = sorted(p)
    for i in range(n):
      sources[tuple(float(f"{p[k][i]:.9e}") for k in names)] = (start, i)
  draws = np.zeros(n)
  treated_total = total = 0
  z_rank, drawn, splits = [], [], []
  for k in range(0, len(seen), 2):
    base, effect = seen[k], seen[k + 1]
    names = sorted(set(base[metric].columns))
    arms = np.asarray(base.index.get_level_values(a.treatment_column))
    ctx.check(set(arms.tolist()) <= {0, 1}, "not two groups")
    ctx.equal(len(base), design.n_items_after_pre_trim, "not the designed number of items", **about)
    ctx.check(base.index.get_level_values(item).is_unique, "an item appears twice in one experiment", **about)
    treated_total += int(arms.sum())
    total += len(arms)
    matrix = base[metric][names].to_numpy(dtype=float)
    found = [sources.get(tuple(float(f"{v:.9e}") for v in row)) for row in matrix]
    if any(f is None for f in found):
      # The last digit may be rounded differently: search by distance.
      table = np.array(list(sources))
      keys = list(sources.values())
      for r, f in enumerate(found):
        if f is None:
          gap = np.abs(table - matrix[r]).max(axis=1)
          ctx.check(gap.min() < 1e-8 * size, "an item's values are not from the history", row=matrix[r], **about)
          found[r] = keys[int(gap.argmin())]
    ctx.equal(len({s for s, _ in found}), 1, "an experiment mixes start weeks", **about)
    drawn.append(tuple(i for _, i in found))
    splits.append(tuple(arms.tolist()))
    for _, i in found:
      draws[i] += 1
    if np.std(matrix[:, -1]) > 0 and np.std(arms) > 0:
      z_rank.append(np.corrcoef(stats.rankdata(matrix[:, -1]), arms)[0, 1] * math.sqrt(len(arms) - 1))
    # The same split with the effect in exactly the treated periods.
    ctx.check(effect.index.equals(base.index), "the A/B simulation used another split", **about)
    for name in names:
      want = base[metric, name].to_numpy(dtype=float).copy()
      if name == "test" or name == "test_1":
        want[arms == 1] += mde
      elif name == "test_2":
        want[arms == 0] += mde
      ctx.close(effect[metric, name].to_numpy(dtype=float), want, f"wrong values in the A/B simulation's {name}", rtol=1e-12,
                atol=1e-12 * size, **about)
    # The recorded results are those of these datasets.
    for data, results, what in ((base, a.aa_simulation_results, "A/A"), (effect, a.ab_simulation_results, "A/B")):
      pivoted = {r: {(metric, p): v for p, v in zip(names, row)} for r, row in enumerate(data[metric][names].to_numpy(dtype=float))}
      want = ref.analyze(pivoted, dict(enumerate(arms.tolist())), design, metric)
      if want is not None:
        level = max(abs(want["_m1"]), abs(want["_m2"]), want["standard_error"])
        ref.compare_result(ctx, results.iloc[k // 2].to_dict(), want, f"{what} simulation", rtol=1e-6, noise=1e-9 * level)
  # Every item gets either group with probability one half, whatever its values.
  ctx.check(binomial_extreme(treated_total, total, 0.5) > LIMIT, "not half of the items are treated",
            treated=treated_total, of=total)
  if z_rank:
    z = float(np.sum(z_rank) / math.sqrt(len(z_rank)))
    ctx.check(abs(z) < 6.5, "the split depends on the values", z=z, **about)
  # No two experiments are the same.
  if design.n_items_after_pre_trim >= 40:
    ctx.event("independent_draws", len(drawn))
    ctx.equal(len(set(drawn)), len(drawn), "two simulations drew the same items", **about)
    ctx.equal(len(set(splits)), len(splits), "two simulations have the same split", **about)
  # With replacement: each experiment draws an item a random number of times.
  m = len(seen) // 2
  if design.n_items_after_pre_trim == n:
    # Draws per item are binomial over all experiments.
    worst = min(binomial_extreme(int(d), m * n, 1 / n) for d in draws)
    ctx.check(worst > LIMIT, "items are not drawn equally often", draws=draws, **about)
  distinct = [len(set(map(tuple, seen[k][metric].to_numpy(dtype=float).tolist()))) for k in range(0, len(seen), 2)]
  share = np.mean(distinct) / design.n_items_after_pre_trim
  ctx.check(0.45 < share < 0.8, "items are not drawn with replacement", share=share, **about)
  # The pre-trimmed items: the most extreme ones hardly ever take part.
  for fraction, top in ((design.pre_trim_top_percentile, True), (design.pre_trim_bottom_percentile, False)):
    g = ref.n_floor(fraction, n)
    if g >= 4:
      hits = 0
      for k in range(0, len(seen), 2):
        values_ = seen[k][metric, "pretest"].to_numpy(dtype=float)
        start = next(iter({s for s in [sources.get(tuple(float(f"{v:.9e}") for v in seen[k][metric][sorted(set(seen[k][metric].columns))].iloc[0]))] if s}), None)
        if start is None:
          continue
        pretest = np.sort(periods_of(values, first, start[0], design)["pretest"])
        # The most extreme quarter of the trimmed items, at least one.
        cut = pretest[-max(1, g // 4)] if top else pretest[max(1, g // 4) - 1]
        hits += bool((values_ >= cut * (1 - 1e-9)).any() if top else (values_ <= cut * (1 + 1e-9)).any())
      ctx.event("pretrim_extremes", m)
      ctx.check(hits <= max(3, 0.35 * m), "the extreme items were not trimmed before the experiment", hits=hits, of=m, top=top, **about)


# ------------------------------------------------------------------------ M05
M05 = PROPS["M05"] = core.Property(
    "M05",
    rule="Recorded results of 2 to 400 simulations, well behaved and not, all alphas, powers and "
    "thresholds, and summaries of 1 to 8 designs before and after. distinct = (design, number, threshold, verdicts).",
    require={"verdicts": 400, "failed": 100, "passed": 100, "before_validation": 60, "summaries": 60, "mixed_summaries": 20,
             "not_estimated": 10})

CHECKS = ["null_p_value", "false_positive_rate", "power", "aa_point_estimate", "ab_point_estimate"]
SUMMARY = ["minimum_detectable_effect", "relative_minimum_detectable_effect", "simulated_false_positive_rate",
           "simulated_power_at_minimum_detectable_effect", *[f"{c}_robustness_check_pass" for c in CHECKS],
           "all_robustness_checks_pass"]


def recorded(rng, n=None, metric=None, validated_=True, estimated_=True):
  """An analysis with the given state of the workflow, and random results."""
  design = gen.design(rng, metric=metric)
  data = pd.DataFrame({"item_id": ["a"] * 60, "week_id": np.arange(60), design.primary_metric: 1.0})
  threshold = float(gen.pick(rng, [0.0001, 0.0001, 0.05, 0.3, 1e-12, rng.uniform(0, 1)]))
  a = es.SimulationAnalysis(design=design, historical_data=data, item_id_column="item_id", week_id_column="week_id",
                            minimum_start_week_id=design.pretest_weeks, rng=np.random.default_rng(0),
                            **({} if threshold == 0.0001 and gen.chance(rng, 0.5) else
                               {"robustness_p_value_threshold": threshold}))
  assert a.robustness_p_value_threshold == threshold, "the threshold is not the documented one or not the given one"
  if estimated_:
    a.minimum_detectable_effect = float(rng.lognormal(0, 2))
    a.relative_minimum_detectable_effect = float(rng.lognormal(-3, 1))
    a.primary_metric_average = a.minimum_detectable_effect / a.relative_minimum_detectable_effect
    a.primary_metric_standard_deviation = 1.0
  if validated_:
    m = n or int(gen.pick(rng, [2, 10, 50, 200, gen.size(rng, 3, 400, 6000)]))
    def p_values(share, skew):
      significant = rng.random(m) < share
      return np.where(significant, rng.random(m) * design.alpha, design.alpha + (1 - design.alpha) * rng.random(m) ** skew)
    off = gen.pick(rng, [0.0, 0.0, 0.2, 1.0, -1.0])
    share_aa = gen.pick(rng, [design.alpha, design.alpha, min(1, 3 * design.alpha), 0.0, 1.0])
    share_ab = gen.pick(rng, [design.power, design.power, 0.5 * design.power, 1.0, 0.0])
    mde = a.minimum_detectable_effect
    scale = mde * rng.uniform(0.05, 2)
    for name, share, centre in (("aa", share_aa, 0.0), ("ab", share_ab, mde)):
      p = p_values(share, gen.pick(rng, [1, 1, 1, 0.3]))
      results = pd.DataFrame({
          "statistic": rng.normal(size=m), "p_value": p, "is_significant": p < design.alpha,
          "absolute_difference": centre + off * mde * gen.pick(rng, [0, 1]) + scale * rng.normal(size=m),
          "alpha": design.alpha})
      if gen.chance(rng, 0.2):
        results.index = np.arange(m)[::-1]
      setattr(a, f"{name}_simulation_results", results)
  return a


def ks_p_value(x):
  x = np.sort(x)
  n = len(x)
  d = max(np.max(np.arange(1, n + 1) / n - x), np.max(x - np.arange(n) / n))
  return float(stats.kstwo.sf(d, n))


def binomial_tail(k, n, p, greater):
  """P(X >= k) or P(X <= k) from the incomplete beta function."""
  if greater:
    return 1.0 if k <= 0 else float(special.betainc(k, n - k + 1, p))
  return 1.0 if k >= n else float(special.betainc(n - k, k + 1, 1 - p))


def t_test(x, centre):
  x = np.asarray(x, dtype=float)
  t = (x.mean() - centre) / (x.std(ddof=1) / math.sqrt(len(x)))
  return ref.p_value(t, len(x) - 1, "two-sided")


def verdicts(a):
  """All the values that follow from the recorded results."""
  if a.aa_simulation_results is None:
    return {}
  aa, ab, d = a.aa_simulation_results, a.ab_simulation_results, a.design
  false_positives = sum(p < d.alpha for p in aa["p_value"])
  true_positives = sum(p < d.alpha for p in ab["p_value"])
  out = {
      "simulated_false_positive_rate": false_positives / len(aa),
      "simulated_power_at_minimum_detectable_effect": true_positives / len(ab),
      "null_p_value_robustness_p_value": ks_p_value(aa["p_value"].to_numpy()),
      "false_positive_rate_robustness_p_value": binomial_tail(false_positives, len(aa), d.alpha, True),
      "power_robustness_p_value": binomial_tail(true_positives, len(ab), d.power, False),
      "aa_point_estimate_robustness_p_value": t_test(aa["absolute_difference"], 0.0),
      "ab_point_estimate_robustness_p_value": t_test(ab["absolute_difference"], a.minimum_detectable_effect)}
  for c in CHECKS:
    p = out[f"{c}_robustness_p_value"]
    near = abs(p - a.robustness_p_value_threshold) < 1e-7 * a.robustness_p_value_threshold + 1e-13
    out[f"{c}_robustness_check_pass"] = None if near else p >= a.robustness_p_value_threshold
  passes = [out[f"{c}_robustness_check_pass"] for c in CHECKS]
  out["all_robustness_checks_pass"] = False if False in passes else None if None in passes else True
  return out


@M05.scenario(quick=800, thorough=16000)
def robustness(ctx, rng):
  a = recorded(rng)
  want = verdicts(a)
  about = dict(design=a.design.design_id, alpha=a.design.alpha, power=a.design.power, n=len(a.aa_simulation_results),
               threshold=a.robustness_p_value_threshold)
  ctx.event("verdicts")
  for name, value in want.items():
    got = getattr(a, name)
    if name.endswith("pass"):
      if value is not None:
        ctx.event("passed" if value else "failed")
        ctx.equal(bool(got), value, f"wrong {name}", values=want, **about)
    else:
      ctx.close(got, value, f"wrong {name}", rtol=1e-6, atol=1e-14, **about)
  ctx.distinct(a.design.design_id, len(a.aa_simulation_results), a.robustness_p_value_threshold,
               tuple(want[f"{c}_robustness_check_pass"] for c in CHECKS))
  ctx.sample(**about, **want)


@M05.scenario(quick=120, thorough=2000)
def absent(ctx, rng):
  a = recorded(rng, validated_=False, estimated_=gen.chance(rng, 0.7))
  ctx.event("before_validation")
  for c in CHECKS:
    for suffix in ("p_value", "check_pass"):
      ctx.check(getattr(a, f"{c}_robustness_{suffix}") is None, f"{c} before the validation")
  for name in ("simulated_false_positive_rate", "simulated_power_at_minimum_detectable_effect", "all_robustness_checks_pass"):
    ctx.check(getattr(a, name) is None, f"{name} before the validation")


def summary_inputs(rng):
  """Analyses of several designs in one state of the workflow each."""
  state = gen.pick(rng, ["estimated", "validated", "validated", "mixed"])
  analyses, seen = [], set()
  metric = gen.pick(rng, gen.NAMES) if gen.chance(rng, 0.5) else None
  for _ in range(gen.size(rng, 1, 9, 60)):
    a = recorded(rng, metric=metric, validated_=state == "validated" or (state == "mixed" and gen.chance(rng, 0.5)))
    if a.design.design_id not in seen:
      analyses.append(a)
      seen.add(a.design.design_id)
  if state == "mixed" and gen.chance(rng, 0.5):  # Some are not even estimated yet.
    for a in analyses[1:]:
      if a.aa_simulation_results is None and gen.chance(rng, 0.5):
        a.minimum_detectable_effect = a.relative_minimum_detectable_effect = None
  return state, analyses


@M05.scenario(quick=160, thorough=2500)
def summaries(ctx, rng):
  state, analyses = summary_inputs(rng)
  sort_by = gen.pick(rng, [None, None, "minimum_detectable_effect", "runtime_weeks", "alpha", "n_items_after_pre_trim"])
  out = es.make_analysis_summary_dataframe(analyses, **({} if sort_by is None else {"sort_by": sort_by}))
  ctx.event("summaries")
  ctx.event("mixed_summaries", state == "mixed")
  ctx.equal(sorted(out.index), sorted(a.design.design_id for a in analyses), "not one row per design")
  ctx.event("not_estimated", sum(a.minimum_detectable_effect is None for a in analyses))
  values = [v for v in out[sort_by or "relative_minimum_detectable_effect"].tolist() if v is not None and v == v]
  ctx.check(all(x <= y for x, y in zip(values, values[1:])), "not in the requested order", values=values)
  params = [f.name for f in dataclasses.fields(ExperimentDesign) if f.name != "coinflip_salt"]
  ctx.check(set(out.columns) == set(params) | set(SUMMARY), "wrong columns", got=list(out.columns))
  for a in analyses:
    row = out.loc[a.design.design_id]
    want = verdicts(a)
    for name in params:
      expected, got = getattr(a.design, name), row[name]
      same = (pd.isna(got) if expected is None else got == expected)
      ctx.check(bool(same), f"wrong {name} in the summary", got=got, want=expected)
    for name in SUMMARY:
      expected, got = want.get(name, None), row[name]
      if name.endswith("detectable_effect") and not name.startswith("simulated"):
        expected = getattr(a, name)
      elif name.endswith("pass") and expected is None and want:
        continue  # Too close to the threshold.
      if expected is None:
        ctx.check(got is None or got != got, f"{name} before the validation in the summary", got=got)
      else:
        ctx.close(float(got), float(expected), f"wrong {name} in the summary", rtol=1e-9)
  ctx.distinct(state, len(analyses), sort_by)


# ------------------------------------------------------------------------ M07
M07 = PROPS["M07"] = core.Property(
    "M07",
    rule="Pivoted datasets of 1 to 300 items with one or more rows, metrics and periods, any names, and "
    "effects of both signs. distinct = (rows, columns, names).",
    require={"splits": 300, "repeated_items": 60, "assigned_items": 10000, "effects": 200, "crossover": 60, "regular": 60,
             "rejected": 60, "odd_cells": 1000, "odd_values": 60})


@M07.scenario(quick=500, thorough=10000)
def random_split(ctx, rng):
  n = int(gen.pick(rng, [1, 2, 50, gen.size(rng, 3, 300, 6000)]))
  item = gen.pick(rng, ["item_id", "offer", "Item ID"])
  arm = gen.pick(rng, [None, "treatment", "group"])
  metrics = gen.pick(rng, [["m"], ["m", "clicks"], ["b", "a"]])
  periods = gen.pick(rng, [["test"], ["pretest", "test"], ["pretest", "test_1", "test_2", "washout_1"]])
  repeat = int(gen.pick(rng, [1, 1, 2, 3])) if gen.chance(rng, 0.5) else 1
  ids = np.repeat(np.array(gen.item_ids(rng, n) if gen.chance(rng, 0.5) else list(range(n)), dtype=object), repeat)
  ids = ids[rng.permutation(len(ids))]
  columns = [(m, p) for m in metrics for p in periods]
  values = rng.lognormal(0, 1, (len(ids), len(columns)))
  if gen.chance(rng, 0.4):
    # Values of any sign, and missing ones.
    values = rng.normal(0, 10.0 ** rng.uniform(-9, 9), values.shape)
    values[rng.random(values.shape) < 0.1] = gen.pick(rng, [0.0, np.nan, np.inf])
    ctx.event("odd_values")
  data = pd.DataFrame(values, columns=pd.MultiIndex.from_tuples(columns))
  data.insert(int(rng.integers(0, len(columns) + 1)), (item, ""), ids)
  if gen.chance(rng, 0.4):
    data.index = rng.permutation(len(data)) + 10
  seed = int(rng.integers(2**31))
  options = {} if arm is None else {"treatment_column": arm}
  before = gen.frame_fingerprint(data)
  out = es.apply_random_treatment_assignment(data, rng=np.random.default_rng(seed), item_id_column=item, **options)
  again = es.apply_random_treatment_assignment(data, rng=np.random.default_rng(seed), item_id_column=item, **options)
  ctx.equal(gen.frame_fingerprint(data), before, "the data was modified")
  ctx.event("splits")
  ctx.event("repeated_items", repeat > 1)
  ctx.event("assigned_items", n)
  ctx.distinct(len(data), len(columns), item, arm, repeat)
  name = arm or "treatment"
  ctx.equal(list(out.index.names), [item, name], "wrong index names")
  ctx.equal(len(out), len(data), "rows were lost or added")
  ctx.equal(list(out.columns), columns, "wrong columns")
  groups = {}
  for i, t in zip(out.index.get_level_values(item), out.index.get_level_values(name)):
    ctx.check(t in (0, 1) and t == t, "not one of two groups", group=t)
    groups.setdefault(i, set()).add(int(t))
  ctx.check(all(len(g) == 1 for g in groups.values()), "an item is in both groups")
  ctx.check(set(groups) == set(ids), "items were lost")
  rows = lambda index, frame: sorted((repr(i), repr(v)) for i, v in zip(index, frame.to_numpy(dtype=float).tolist()))
  ctx.check(rows(out.index.get_level_values(item), out) == rows(ids, data[columns]),
            "the values of an item changed")
  ctx.check(out.equals(again), "the same random state gives another split")
  treated = sum(next(iter(g)) for g in groups.values())
  ctx.check(binomial_extreme(treated, n, 0.5) > LIMIT, "not half of the items are treated", treated=treated, of=n)
  ctx.sample(items=n, rows=len(data), treated=treated, names=[item, name])


@M07.scenario(quick=16, thorough=100)
def split_over_seeds(ctx, rng):
  """The group of each item over many random states, and its dependence on the data."""
  n, repeats = 24, 400
  values = np.sort(rng.lognormal(0, 1, n))
  data = pd.DataFrame({("item_id", ""): np.arange(n), ("m", "test"): values})
  groups = np.array([
      np.asarray(es.apply_random_treatment_assignment(data, rng=np.random.default_rng([int(rng.integers(2**31)), k]),
                                                      item_id_column="item_id").sort_index(level=0).index.get_level_values("treatment"))
      for k in range(repeats)])
  ctx.event("assigned_items", n * repeats)
  for k in groups.sum(axis=0):
    ctx.check(binomial_extreme(int(k), repeats, 0.5) > LIMIT, "an item is not treated half of the time", times=int(k))
  # Items are independent of each other.
  signs = 2 * groups - 1
  products = (signs.T @ signs)[np.triu_indices(n, 1)]
  ctx.check(np.abs(products).max() < 7.0 * math.sqrt(repeats), "two items' groups depend on each other")
  sums = signs.sum(axis=1)
  ctx.check(0.55 < sums.var() / n < 1.6, "the group sizes do not vary like coin flips", ratio=sums.var() / n)
  # Other random states give other splits.
  ctx.check(len({g.tobytes() for g in groups}) > 0.99 * repeats, "random states give the same splits")


@M07.scenario(quick=400, thorough=8000)
def synthetic_effect(ctx, rng):
  n = gen.size(rng, 2, 100, 5000)
  design = gen.design(rng)
  metric, name = gen.pick(rng, ["m", "clicks"]), gen.pick(rng, ["treatment", "group"])
  periods = ["pretest", "washout_1", "test_1", "washout_2", "test_2"] if design.is_crossover else ["pretest", "test"]
  columns = [(m, p) for m in (metric, "another") for p in periods]
  columns = [columns[i] for i in rng.permutation(len(columns))]
  arms = rng.integers(0, 2, n)
  index = pd.MultiIndex.from_arrays([np.arange(n), arms], names=["item_id", name])
  if gen.chance(rng, 0.3):
    index = index.swaplevel()
  data = pd.DataFrame(rng.lognormal(0, 1, (n, len(columns))), index=index, columns=pd.MultiIndex.from_tuples(columns))
  if gen.chance(rng, 0.5):
    data = data.sort_index(axis=1)
  effect = float(rng.normal()) * 10.0 ** rng.uniform(-6, 4)
  if gen.chance(rng, 0.5):
    # Items without any or with a negative metric get the effect as well.
    odd = rng.random(data.shape) < gen.pick(rng, [0.1, 0.5])
    data = data.where(~odd, gen.pick(rng, [0.0, -3.5]))
    ctx.event("odd_cells", int(odd.sum()))
  original = data.copy()
  out = es.apply_synthetic_treatment_effect(data, metric_name=metric, design=design, effect_size=effect,
                                            treatment_assignment_index_name=name)
  ctx.event("effects")
  ctx.event("crossover" if design.is_crossover else "regular")
  ctx.distinct(n, design.is_crossover, metric, name)
  ctx.check(out.index.equals(original.index) and out.columns.equals(original.columns), "the labels changed")
  want = original.copy()
  for column in want.columns:
    if column[0] == metric and column[1] in ("test", "test_1"):
      want[column] = want[column].to_numpy() + np.where(arms == 1, effect, 0.0)
    elif column == (metric, "test_2"):
      want[column] = want[column].to_numpy() + np.where(arms == 0, effect, 0.0)
  for column in want.columns:
    ctx.equal(out[column].to_numpy(), want[column].to_numpy(), "wrong values", column=column, effect=effect)
  ctx.event("rejected")
  needed = ["test_1", "test_2"] if design.is_crossover else ["test"]
  missing = gen.pick(rng, needed)
  with ctx.raises(ValueError, "a missing period was accepted"):
    es.apply_synthetic_treatment_effect(original.drop(columns=[(metric, missing)]), metric_name=metric, design=design,
                                        effect_size=effect, treatment_assignment_index_name=name)
  with ctx.raises(ValueError, "a missing assignment was accepted"):
    es.apply_synthetic_treatment_effect(original, metric_name=metric, design=design, effect_size=effect,
                                        treatment_assignment_index_name="not there")
  frame = original.reset_index()
  with ctx.raises(ValueError, "an existing treatment column was replaced"):
    es.apply_random_treatment_assignment(frame, rng=np.random.default_rng(0), item_id_column="item_id", treatment_column=name)
  with ctx.raises(ValueError, "a missing item column was accepted"):
    es.apply_random_treatment_assignment(frame, rng=np.random.default_rng(0), item_id_column="not there", treatment_column="t")
