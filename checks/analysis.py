"""A01-A05: labelling, pivoting and analysing experiments."""

import dataclasses

import numpy as np
import pandas as pd

from feedx import experiment_analysis as ea

from mon import core
from mon import gen
from mon import ref

PROPS = {}
Metric = ea.Metric


# ------------------------------------------------------------------ workloads
def small_design(rng, n, **kwargs):
  long = gen.chance(rng, 0.1)
  kwargs = dict(dict(max_runtime=18 if long else 6, max_pretest=10 if long else 3), **kwargs)
  design = gen.design(rng, n_items=max(n, 60), **kwargs)
  if design.n_items_after_post_trim <= 50:
    return small_design(rng, n, **kwargs)
  return design


def experiment(rng, design=None, frequency=None, kind="continuous", n=None, outside=True, n_metrics=3,
               missing=None, start=0, signed=False):
  """Rows of an experiment, with the facts the oracle needs."""
  n = n or gen.size(rng, 56, 110, 1500, 0.02)
  design = design or small_design(rng, n)
  before = int(rng.integers(0, 3)) if outside else 0
  after = int(rng.integers(0, 3)) if outside else 0
  weeks = list(range(start - design.pretest_weeks - before, start + design.runtime_weeks + after))
  frequency = frequency or gen.pick(rng, [7, 7, 1])
  per_week = 1 if frequency == 7 else 7
  n_rows = len(weeks) * per_week
  numeric = gen.chance(rng, 0.3)
  ids = gen.item_ids(rng, n, "number" if numeric else None)
  if numeric:
    ids = [int(i) for i in ids]
  treatment = {i: int(t) for i, t in zip(ids, rng.random(n) < 0.5)}
  while min(sum(treatment.values()), n - sum(treatment.values())) < 22:
    treatment = {i: int(t) for i, t in zip(ids, rng.random(n) < 0.5)}
  metrics = [gen.pick(rng, ["m", "clicks", "total cost", "métrique"]) + str(k) for k in range(n_metrics)]
  scale = 10.0 ** rng.uniform(-3, 5)
  values = {m: gen.weekly_metric(rng, n, n_rows, kind) * (scale if k != 1 else 1.0)
            for k, m in enumerate(metrics)}
  whole = [m for m in metrics if gen.chance(rng, 0.15)]  # for example a cost in micros
  for m in whole:
    values[m] = np.floor(values[m] * 1e6)
  if signed:
    values[metrics[0]] = values[metrics[0]] - np.median(values[metrics[0]])
  present = np.ones((n, n_rows), dtype=bool)
  if (gen.chance(rng, 0.3) if missing is None else missing):
    present = rng.random((n, n_rows)) < rng.uniform(0.5, 1)
    present[:, [0, -1]] = True
    for column in range(n_rows):
      present[rng.integers(n), column] = True
  cells = np.argwhere(present)
  cells = cells[rng.permutation(len(cells))]
  names = dict(
      item=gen.pick(rng, ["item_id", "offer", "Item ID"]), week=gen.pick(rng, ["week_id", "w"]),
      arm=gen.pick(rng, ["treatment_assignment", "group", "arm"]))
  row_ids = np.array(ids, dtype=object if not numeric else np.int64)[cells[:, 0]]
  row_weeks = np.array(weeks)[cells[:, 1] // per_week]
  frame = {names["item"]: row_ids, names["week"]: row_weeks,
           names["arm"]: np.array([treatment[i] for i in ids])[cells[:, 0]]}
  for m in metrics:
    frame[m] = values[m][cells[:, 0], cells[:, 1]]
    if m in whole and np.all(frame[m] == np.floor(frame[m])):
      frame[m] = frame[m].astype(np.int64)
  data = gen.maybe_categorical(rng, pd.DataFrame(frame), names["item"])
  if gen.chance(rng, 0.3):
    data["junk"] = "x"
  if gen.chance(rng, 0.3):
    data["pretest"] = 1.0
  if gen.chance(rng, 0.4):
    data.index = gen.row_labels(rng, len(data))
  return dict(data=data, design=design, ids=ids, treatment=treatment, metrics=metrics, names=names,
              weeks=weeks, start=start, scale=scale, per_week=per_week)


def rows_of(e, data=None):
  data = e["data"] if data is None else data
  columns = [data[m].tolist() for m in e["metrics"]]
  return [(i, int(w), dict(zip(e["metrics"], v))) for i, w, *v in
          zip(data[e["names"]["item"]].tolist(), data[e["names"]["week"]].tolist(), *columns)]


def analyse(e, metrics, data=None):
  with core.captured():
    return ea.analyze_experiment(
        e["data"] if data is None else data, metrics=metrics, design=e["design"],
        week_id_column=e["names"]["week"], item_id_column=e["names"]["item"],
        treatment_assignment_column=e["names"]["arm"])


def random_metrics(rng, e, kind, ratio=True):
  """Metrics to analyse, among them ratios and trimming overrides."""
  out = []
  # The names are free text, and may for example differ by case or spaces only.
  names = gen.pick(rng, [[f"Metric {k}" for k in range(4)]] * 3 + [["CTR", "ctr", "Ctr", " CTR"], ["b", "B", "a", "A"], ["1", "01", "1.0", ""]])
  for k in range(int(rng.integers(1, 5))):
    column = gen.pick(rng, e["metrics"])
    denominator = None
    if ratio and gen.chance(rng, 0.3):
      denominator = gen.pick(rng, [m for m in e["metrics"] if m != column])
    override = gen.pick(rng, [None, None, 0.0, 0.02, 0.1, 0.25])
    if kind != "continuous":
      override = 0.0
    out.append(Metric(names[k], column, denominator, override))
  return out


# ------------------------------------------------------------------------ A01
A01 = PROPS["A01"] = core.Property(
    "A01",
    rule="Designs with 0 to 8 pretest and 1 to 16 runtime weeks, all feasible washouts, start weeks "
    "from -30 to 60 and shuffled, gappy, repeated weeks around them. distinct = (pretest, runtime, "
    "crossover, washout).",
    require={"labelled": 700, "crossover": 250, "regular": 250, "washout": 100, "weeks": 10000,
             "unlabelled": 2000, "rejected": 50})


@A01.scenario(quick=1000, thorough=20000)
def labels(ctx, rng):
  design = gen.design(rng, max_runtime=16, max_pretest=8)
  start = int(rng.integers(-30, 61))
  span = np.arange(start - design.pretest_weeks - 4, start + design.runtime_weeks + 5)
  weeks = np.concatenate([span, rng.choice(span, int(rng.integers(0, 20)))])
  rng.shuffle(weeks)
  if gen.chance(rng, 0.3):
    weeks = weeks[: max(1, int(len(weeks) * rng.random()))]
  week_column = gen.pick(rng, ["week_id", "week", "w"])
  period_column = gen.pick(rng, ["time_period", "period"])
  data = pd.DataFrame({week_column: weeks.astype(gen.pick(rng, ["int64", "int32", "float64"])),
                       "v": rng.normal(size=len(weeks)), "item": "x"})
  index = gen.pick(rng, ["range", "permuted", "repeated"])
  if index != "range":
    data.index = rng.permutation(len(data)) if index == "permuted" else rng.integers(0, 3, len(data))
  want = [ref.period_label(int(w), start, design) for w in weeks]
  original = data.copy()
  options = {} if period_column == "time_period" and gen.chance(rng, 0.5) else {"time_period_column": period_column}
  out = ea.add_time_period_column(data, design=design, start_week_id=start, week_id_column=week_column, **options)
  got = [v if isinstance(v, str) else None for v in out[period_column].tolist()]
  ctx.event("labelled")
  ctx.event("crossover" if design.is_crossover else "regular")
  ctx.event("washout", bool(design.is_crossover and design.crossover_washout_weeks))
  ctx.event("weeks", len(weeks))
  ctx.event("unlabelled", want.count(None))
  ctx.distinct(design.pretest_weeks, design.runtime_weeks, design.is_crossover, design.crossover_washout_weeks)
  wrong = [(int(w) - start, g, t) for w, g, t in zip(weeks, got, want) if g != t]
  ctx.check(not wrong, "a week has the wrong period", offset_got_want=wrong[:6], design=str(design))
  ctx.equal(gen.frame_fingerprint(out.drop(columns=period_column)), gen.frame_fingerprint(original),
            "other columns, the index or the order changed")
  ctx.sample(start=start, pretest=design.pretest_weeks, runtime=design.runtime_weeks, crossover=design.is_crossover,
             washout=design.crossover_washout_weeks, weeks=len(weeks))


@A01.scenario(quick=60, thorough=500)
def rejected_labels(ctx, rng):
  design = gen.design(rng)
  data = pd.DataFrame({"week_id": [0, 1, 2], "time_period": None})
  before = gen.frame_fingerprint(data)
  ctx.event("rejected")
  with ctx.raises(ValueError, "an existing label column was overwritten"):
    ea.add_time_period_column(data, design=design, start_week_id=0, week_id_column="week_id")
  ctx.equal(gen.frame_fingerprint(data), before, "the rejected data was modified")
  with ctx.raises(ValueError, "a missing week column was accepted"):
    ea.add_time_period_column(data, design=design, start_week_id=0, week_id_column="week", time_period_column="p")


# ------------------------------------------------------------------------ A02
A02 = PROPS["A02"] = core.Property(
    "A02",
    rule="Daily and weekly experiments with shuffled, missing and outside rows, float and integer "
    "metrics, any start week, with and without assignments, items in both groups. distinct = "
    "(design, start, rows).",
    require={"pivots": 200, "cells": 40000, "crossover": 60, "regular": 60, "without_assignment": 50,
             "missing_rows": 30, "outside_rows": 80, "integer_metric": 30, "lost_weeks": 30, "lost_periods": 10, "both_groups": 10, "rejected": 30})


@A02.scenario(quick=400, thorough=8000)
def pivoted(ctx, rng):
  e = experiment(rng, kind=gen.pick(rng, ["continuous", "counts", "sparse"]), start=int(rng.integers(-20, 40)),
                 signed=gen.chance(rng, 0.2))
  data, design, names = e["data"], e["design"], e["names"]
  if gen.chance(rng, 0.2):
    for m in e["metrics"]:
      data[m] = np.round(data[m]).astype("int64")
    ctx.event("integer_metric")
  if gen.chance(rng, 0.3):
    # Some weeks were never observed at all.
    observed = sorted(set(data[names["week"]]))
    lost = {observed[i] for i in rng.permutation(len(observed))[: int(rng.integers(1, 3))]}
    periods = lambda weeks: {ref.period_label(w, e["start"], design) for w in weeks}
    if gen.chance(rng, 0.4):
      # Not even one week of one of the periods.
      label = gen.pick(rng, sorted(periods(observed) - {None, "test"} or {""}))
      lost = {w for w in observed if ref.period_label(w, e["start"], design) == label}
    if {"test"} & periods(observed) <= periods(set(observed) - lost) - {None} != set():
      ctx.event("lost_periods", periods(observed) != periods(set(observed) - lost))
      data = e["data"] = data[~data[names["week"]].isin(lost)]
      ctx.event("lost_weeks")
  with_arm = gen.chance(rng, 0.7)
  if with_arm and gen.chance(rng, 0.15):
    # Some items have rows in both groups.
    flip = data[names["item"]].isin(e["ids"][:4]) & (rng.random(len(data)) < 0.5)
    data.loc[flip, names["arm"]] = 1 - data.loc[flip, names["arm"]]
    ctx.event("both_groups")
  metrics = [e["metrics"][i] for i in rng.permutation(len(e["metrics"]))[: int(rng.integers(1, 4))]]
  options = {}
  if with_arm:
    options["treatment_column"] = names["arm"]
  if gen.chance(rng, 0.4):
    options["time_period_column"] = "my period"
  before = gen.frame_fingerprint(data)
  out = ea.pivot_time_assignment(
      data, design=design, start_week_id=e["start"], metric_columns=list(metrics), item_id_column=names["item"],
      week_id_column=names["week"], **options)
  ctx.equal(gen.frame_fingerprint(data), before, "pivoting modified the data")
  keys = list(zip(data[names["item"]].tolist(), data[names["arm"]].tolist())) if with_arm else [
      (i,) for i in data[names["item"]].tolist()]
  rows = [(k, w, v) for k, (_, w, v) in zip(keys, rows_of(e))]
  want = ref.pivot(rows, e["start"], design, metrics)
  seen_periods = {ref.period_label(w, e["start"], design) for _, w, _ in rows} - {None}
  ctx.event("pivots")
  ctx.event("crossover" if design.is_crossover else "regular")
  ctx.event("without_assignment", not with_arm)
  ctx.event("missing_rows", len(data) < len(e["ids"]) * len(e["weeks"]) * e["per_week"])
  ctx.event("outside_rows", any(ref.period_label(w, e["start"], design) is None for w in e["weeks"]))
  ctx.distinct(design.design_id, e["start"], len(data))
  ctx.equal(list(out.index.names), [names["item"]] + ([names["arm"]] if with_arm else []), "wrong index names")
  ctx.equal(out.columns.names[1], options.get("time_period_column", "time_period"), "wrong name of the periods")
  ctx.check(set(out.columns) == {(m, p) for m in metrics for p in seen_periods}, "wrong metrics or periods",
            got=list(out.columns), want=sorted(seen_periods), design=str(design))
  got_keys = [k if isinstance(k, tuple) else (k,) for k in out.index]
  ctx.equal(len(got_keys), len(set(got_keys)), "an item appears twice")
  ctx.check(set(got_keys) == set(want), "not one row per item", got=len(got_keys), want=len(want))
  for m, period in out.columns:
    column = out[m, period].tolist()
    expected = [want[k][m, period] for k in got_keys]
    ctx.event("cells", len(column))
    size = max(1e-300, max(abs(v) for v in expected))
    ctx.close(column, expected, "not the sum of the rows over the designed weeks", rtol=1e-11, atol=1e-12 * size,
              metric=m, period=period, design=str(design))
  ctx.sample(design=design.design_id, crossover=design.is_crossover, items=len(want), rows=len(data),
             metrics=metrics, start=e["start"])


@A02.scenario(quick=60, thorough=600)
def rejected_pivots(ctx, rng):
  e = experiment(rng, n=60)
  names, kwargs = e["names"], None
  kwargs = dict(design=e["design"], start_week_id=0, metric_columns=[e["metrics"][0]], item_id_column=names["item"],
                week_id_column=names["week"], treatment_column=names["arm"])
  ctx.event("rejected")
  which = gen.pick(rng, ["item_id_column", "week_id_column", "treatment_column", "metric_columns", "clash"])
  if which == "clash":
    data = e["data"].assign(time_period="test")
    bad = kwargs
  else:
    data = e["data"]
    bad = dict(kwargs, **{which: "not there" if which != "metric_columns" else [e["metrics"][0], "not there"]})
  before = gen.frame_fingerprint(data)
  with ctx.raises(ValueError, "missing or clashing columns were accepted", which=which):
    ea.pivot_time_assignment(data, **bad)
  ctx.equal(gen.frame_fingerprint(data), before, "the rejected data was modified")


# ------------------------------------------------------------------------ A03
A03 = PROPS["A03"] = core.Property(
    "A03",
    rule="Experiments of regular and crossover designs with and without pretest, washout and trimming, "
    "daily or weekly, with missing rows, 1 to 4 metrics including ratios and overrides. distinct = "
    "(design, metrics, rows).",
    require={"analyses": 200, "results": 400, "crossover": 60, "regular": 60, "cuped": 60, "ratio": 50,
             "override": 100, "trimmed": 60, "significant": 20, "single": 40, "rejected": 30,
             "quiet_pretest": 20})


def judge_results(ctx, e, metrics, out, data=None):
  """Monitors the analysis of each metric against the reference model."""
  pivoted_ = ref.pivot(rows_of(e, data), 0, e["design"], e["metrics"])
  ctx.equal(list(out.index), [m.name for m in metrics], "not one row per metric, in order")
  for k, m in enumerate(metrics):
    want = ref.analyze(pivoted_, e["treatment"], e["design"], m.column, m.denominator_column,
                       m.trimming_quantile_override)
    if want is None:
      ctx.event("near_tie")
      continue
    ctx.event("results")
    ctx.event("ratio", m.denominator_column is not None)
    ctx.event("override", m.trimming_quantile_override is not None)
    ctx.event("significant", want["is_significant"])
    level = max(abs(want["_m1"]), abs(want["_m2"]), want["standard_error"])
    spread = max(want["_v1"], want["_v2"]) / want["standard_error"] ** 2
    if spread > 1e6:
      continue
    ref.compare_result(ctx, out.iloc[k].to_dict(), want, f"{m} of {e['design']}", rtol=1e-6,
                       noise=1e-10 * level * (1 + spread))


@A03.scenario(quick=360, thorough=8000)
def analysed(ctx, rng):
  kind = gen.pick(rng, ["continuous", "continuous", "continuous", "counts", "sparse"])
  n = gen.size(rng, 56, 130, 2500, 0.03)
  design = small_design(rng, n, posttrim=None if kind == "continuous" else False)
  continuous = kind == "continuous"
  e = experiment(rng, design=design, kind=kind, n=n, missing=None if continuous and gen.chance(rng, 0.5) else not continuous,
                 signed=gen.chance(rng, 0.15))
  if gen.chance(rng, 0.15) and design.pretest_weeks and not design.is_crossover:
    # Most items had no activity before the experiment.
    quiet = (e["data"][e["names"]["week"]] < e["start"]) & ~e["data"][e["names"]["item"]].isin(e["ids"][: max(3, n // 12)])
    e["data"].loc[quiet, e["metrics"]] = 0.0
    ctx.event("quiet_pretest")
  metrics = random_metrics(rng, e, kind, ratio=not (continuous and len(e["data"]) < n * len(e["weeks"]) * e["per_week"]))
  if gen.chance(rng, 0.4):
    # A real effect.
    treated = e["data"][e["names"]["arm"]] == 1
    e["data"].loc[treated, e["metrics"][0]] *= 1.4
  ctx.event("analyses")
  ctx.event("crossover" if design.is_crossover else "regular")
  ctx.event("cuped", not design.is_crossover and design.pretest_weeks > 0)
  ctx.event("trimmed", design.post_trim_percentile > 0)
  ctx.distinct(design.design_id, tuple(map(str, metrics)), len(e["data"]))
  before = gen.frame_fingerprint(e["data"])
  out = analyse(e, metrics)
  ctx.equal(gen.frame_fingerprint(e["data"]), before, "the analysis modified the data")
  ctx.equal(out.index.name, "metric", "wrong index name")
  judge_results(ctx, e, metrics, out)
  ctx.sample(design=design.design_id, crossover=design.is_crossover, metrics=[str(m) for m in metrics],
             items=n, p=out["p_value"].tolist())


@A03.scenario(quick=80, thorough=1500)
def single_metric(ctx, rng):
  """The analysis of one pivoted metric, and what it needs."""
  e = experiment(rng, missing=False)
  design, names = e["design"], e["names"]
  pivoted_ = ea.pivot_time_assignment(
      e["data"], design=design, start_week_id=0, metric_columns=e["metrics"], item_id_column=names["item"],
      week_id_column=names["week"], treatment_column=names["arm"])
  m = random_metrics(rng, e, "continuous")[0]
  kwargs = dict(design=design, metric_name=m.column, denominator_metric_name=m.denominator_column,
                treatment_assignment_index_name=names["arm"], trimming_quantile_override=m.trimming_quantile_override)
  before = gen.frame_fingerprint(pivoted_)
  got = dataclasses.asdict(ea.analyze_single_metric(pivoted_, **kwargs))
  ctx.event("single")
  ctx.equal(gen.frame_fingerprint(pivoted_), before, "the analysis modified the pivoted data")
  table = analyse(e, [m]).iloc[0].to_dict()
  for field in ref.FIELDS:
    ctx.close(got[field] if got[field] is not None else np.nan, table[field], f"{field} differs from the table", rtol=1e-12)
  # Every period that the design compares must be there.
  needed = ["test_1", "test_2"] if design.is_crossover else ["test"] + ["pretest"] * (design.pretest_weeks > 0)
  period = gen.pick(rng, needed)
  column = m.denominator_column if m.denominator_column and gen.chance(rng, 0.5) else m.column
  ctx.event("rejected")
  if (column, period) in pivoted_ and len(pivoted_[column].columns) > 1:
    with ctx.raises(ValueError, "a missing period was accepted", period=period):
      ea.analyze_single_metric(pivoted_.drop(columns=[(column, period)]), **kwargs)
  with ctx.raises(ValueError, "a missing assignment was accepted"):
    ea.analyze_single_metric(pivoted_, **dict(kwargs, treatment_assignment_index_name="not there"))


# ------------------------------------------------------------------------ A04
A04 = PROPS["A04"] = core.Property(
    "A04",
    rule="Pairs of analyses that differ by an effect on the treated item-weeks, by changes in washout "
    "weeks or outside the experiment, or by a common shift of a period. distinct = (design, change).",
    require={"effect_regular": 40, "effect_cuped": 20, "effect_crossover": 40, "effect_trimmed": 40,
             "washout": 30, "outside": 60, "period_shift": 30})


def is_treated(e, data):
  """Which rows are treated: by group, and period for a crossover."""
  arm = (data[e["names"]["arm"]] == 1).to_numpy()
  labels_ = [ref.period_label(int(w), 0, e["design"]) or "" for w in data[e["names"]["week"]]]
  first = np.array([v in ("test", "test_1") for v in labels_])
  second = np.array([v == "test_2" for v in labels_])
  return (arm & first) | (~arm & second)


def _related(ctx, got, want, what, e, shift=0.0, fields=None):
  size = max(abs(want["control_average"]), abs(want["absolute_difference"]), want["standard_error"], abs(shift))
  moved = ("absolute_difference", "absolute_difference_lower_bound", "absolute_difference_upper_bound")
  for field in fields or (*moved, "standard_error", "degrees_of_freedom", "sample_size", "control_average"):
    ctx.close(got[field], want[field] + (shift if field in moved else 0.0), f"{what}: {field}", rtol=1e-8,
              atol=1e-9 * size if field not in ("degrees_of_freedom", "sample_size") else 1e-6, design=str(e["design"]))


@A04.scenario(quick=240, thorough=5000)
def planted_effect(ctx, rng):
  kind = gen.pick(rng, ["regular", "cuped", "crossover"])
  n = 2 * gen.size(rng, 28, 60, 1200, 0.03)
  design = small_design(rng, n, crossover=kind == "crossover", pretest=0 if kind == "regular" else None,
                        posttrim=False if kind == "cuped" else None)
  if kind == "cuped" and design.pretest_weeks == 0:
    return
  e = experiment(rng, design=design, n=n, missing=gen.chance(rng, 0.2) and design.post_trim_percentile == 0)
  if kind in ("cuped", "crossover"):
    # Equally large groups.
    order = list(rng.permutation(np.arange(n)))
    e["treatment"] = {e["ids"][i]: int(k < n // 2) for k, i in enumerate(order)}
    e["data"][e["names"]["arm"]] = [e["treatment"][i] for i in e["data"][e["names"]["item"]]]
  data, metric = e["data"], e["metrics"][0]
  if kind == "cuped":
    # Groups with the same pretest average.
    arm = data[e["names"]["arm"]].to_numpy()
    pre = np.array([ref.period_label(int(w), 0, design) == "pretest" for w in data[e["names"]["week"]]])
    values = data[metric].to_numpy(float).copy()
    values[pre & (arm == 1)] *= values[pre & (arm == 0)].sum() / values[pre & (arm == 1)].sum()
    data[metric] = values
  per_row = float(rng.normal()) * data[metric].mean()
  effect = per_row * e["per_week"]
  treated = is_treated(e, data)
  other = data.copy()
  other[metric] = data[metric] + per_row * treated
  if len(data) < n * len(e["weeks"]) * e["per_week"]:
    return  # The effect only exists in rows that exist.
  metrics = [Metric("m", metric)]
  base, got = (analyse(e, metrics, d).iloc[0].to_dict() for d in (data, other))
  ctx.event(f"effect_{kind}")
  ctx.event("effect_trimmed", design.post_trim_percentile > 0)
  ctx.distinct(design.design_id, kind)
  fields = ("absolute_difference",)
  if kind == "regular" or (kind == "crossover" and design.post_trim_percentile > 0):
    fields = None
  if fields is None and kind == "crossover":
    # Trimmed by the difference, so the same items are kept.
    fields = ("absolute_difference", "absolute_difference_lower_bound", "absolute_difference_upper_bound",
              "standard_error", "degrees_of_freedom", "sample_size", "control_average")
  _related(ctx, got, base, f"effect on treated item-weeks ({kind})", e, shift=effect, fields=fields)
  ctx.sample(kind=kind, effect=effect, before=base["absolute_difference"], after=got["absolute_difference"])


@A04.scenario(quick=240, thorough=5000)
def irrelevant_weeks(ctx, rng):
  n = int(rng.integers(56, 110))
  design = small_design(rng, n, crossover=gen.chance(rng, 0.6))
  e = experiment(rng, design=design, n=n, missing=gen.chance(rng, 0.2))
  data, design = e["data"], e["design"]
  labels_ = [ref.period_label(int(w), 0, design) for w in data[e["names"]["week"]]]
  which = "washout" if "washout_1" in labels_ and gen.chance(rng, 0.8) else "outside"
  if which == "washout":
    rows = np.array([v is not None and v.startswith("washout") for v in labels_])
  elif design.is_crossover and gen.chance(rng, 0.5):
    rows = np.array([v in (None, "pretest") for v in labels_])
  else:
    rows = np.array([v is None for v in labels_])
  if not rows.any():
    return
  other = data.copy()
  # An item is part of the experiment only if it has rows, so complete data stays so in the other weeks.
  complete = len(data) == n * len(e["weeks"]) * e["per_week"]
  change = gen.pick(rng, ["noise", "effect", "drop"] if complete else ["noise", "effect"])
  if change == "drop":
    other = other[~rows | (rng.random(len(rows)) < 0.5)]
  for m in e["metrics"]:
    if change == "noise":
      other[m] = np.where(rows, rng.gamma(1, 100, len(rows)), data[m])
    elif change == "effect":
      other[m] = np.where(rows & (data[e["names"]["arm"]] == 1), data[m] * 50, data[m])
  metrics = random_metrics(rng, e, "continuous", ratio=False)
  base, got = analyse(e, metrics, data), analyse(e, metrics, other)
  ctx.event(which)
  ctx.distinct(design.design_id, which, change)
  for field in ref.FIELDS:
    ctx.close(got[field].to_numpy(float), base[field].to_numpy(float), f"{which} weeks changed {field}", rtol=1e-12,
              design=str(design), change=change)


@A04.scenario(quick=160, thorough=3000)
def period_shift(ctx, rng):
  """A shift of all items in one period of an untrimmed crossover."""
  n = int(rng.integers(56, 110))
  design = small_design(rng, n, crossover=True, posttrim=False)
  e = experiment(rng, design=design, n=n, missing=False)
  data, metric = e["data"], e["metrics"][0]
  period = gen.pick(rng, ["test_1", "test_2"])
  rows = np.array([ref.period_label(int(w), 0, design) == period for w in data[e["names"]["week"]]])
  shift = abs(float(rng.normal())) * 3 * data[metric].mean()
  other = data.copy()
  other[metric] = data[metric] + shift * rows
  base, got = (analyse(e, [Metric("m", metric)], d).iloc[0].to_dict() for d in (data, other))
  ctx.event("period_shift")
  ctx.distinct(design.design_id, period)
  _related(ctx, got, base, f"shift of all items in {period}", e, fields=(
      "absolute_difference", "absolute_difference_lower_bound", "absolute_difference_upper_bound", "standard_error",
      "degrees_of_freedom", "sample_size"))
  # The control average keeps its level: it moves by the control items' share of the shift.
  control = np.mean([t == (0 if period == "test_1" else 1) for t in e["treatment"].values()])
  ctx.close(got["control_average"], base["control_average"] + shift * e["per_week"] * control,
            "the control average does not keep the control items' level", rtol=1e-8)


# ------------------------------------------------------------------------ A05
A05 = PROPS["A05"] = core.Property(
    "A05",
    rule="Pairs of analyses that differ by row order, item names, column names, index, further columns, "
    "rows or metrics, the metric's unit, split rows, or exchanged groups. distinct = (design, change, "
    "metrics).",
    require={"pairs": 250, "shuffled": 20, "renamed_items": 20, "renamed_columns": 20, "index": 20, "columns": 20,
             "other_metrics": 20, "units": 20, "exchanged": 20, "split_rows": 20, "ratio": 40})


@A05.scenario(quick=480, thorough=10000)
def irrelevant_changes(ctx, rng):
  continuous = gen.chance(rng, 0.8)
  kind = "continuous" if continuous else "counts"
  n = gen.size(rng, 56, 100, 1500, 0.03)
  design = small_design(rng, n, posttrim=None if continuous else False)
  e = experiment(rng, design=design, n=n, kind=kind, missing=False if continuous else None, frequency=7 if gen.chance(rng, 0.7) else 1)
  data, names = e["data"], e["names"]
  metrics = random_metrics(rng, e, kind)
  other, o, change_metrics = data.copy(), dict(e, names=dict(names)), metrics
  factor = {}
  change = gen.pick(rng, ["shuffled", "renamed_items", "renamed_columns", "index", "columns", "other_metrics",
                          "units", "exchanged", "split_rows"])
  if change == "shuffled":
    other = gen.shuffled(rng, other)
  elif change == "renamed_items":
    fresh = gen.item_ids(rng, n)
    other[names["item"]] = other[names["item"]].map(dict(zip(e["ids"], fresh)))
  elif change == "renamed_columns":
    new = {names["item"]: "new item", names["week"]: "new week", names["arm"]: "new arm",
           **{m: f"new {m}" for m in e["metrics"]}}
    other = other.rename(columns=new)
    o["names"] = {k: new[v] for k, v in names.items()}
    change_metrics = [Metric(m.name, new[m.column], new.get(m.denominator_column), m.trimming_quantile_override)
                      for m in metrics]
  elif change == "index":
    other.index = pd.Index(rng.integers(0, 5, len(other)), name=gen.pick(rng, [None, "i", "test"]))
  elif change == "columns":
    other.insert(0, "extra", rng.normal(size=len(other)))
    other["test"] = "x"
    other["date"] = pd.Timestamp("2024-01-01")
    other = other[list(rng.permutation(np.array(other.columns, dtype=object)))]
  elif change == "other_metrics":
    other["another"] = rng.gamma(1, 1, len(other))
    change_metrics = [Metric("another", "another", None, 0.0), *metrics, Metric("again", e["metrics"][0], "another", 0.0)]
  elif change == "units":
    column = gen.pick(rng, e["metrics"])
    factor[column] = gen.pick(rng, [1e-6, 1e-3, 0.5, 3.0, 1e6])
    other[column] = other[column] * factor[column]
  elif change == "exchanged":
    other[names["arm"]] = 1 - other[names["arm"]]
  elif change == "split_rows":
    # The same totals in more rows.
    share = rng.random(len(other))
    first, second = other.copy(), other.copy()
    for m in e["metrics"]:
      first[m] = other[m] * share
      second[m] = other[m] - first[m]
    other = gen.shuffled(rng, pd.concat([first, second]))
  base = analyse(e, metrics)
  got = analyse(o, change_metrics, other)
  if change == "other_metrics":
    ctx.equal(list(got.index), [m.name for m in change_metrics], "wrong metrics")
    got = got.iloc[1:-1]
  ctx.event("pairs")
  ctx.event(change)
  ctx.event("ratio", any(m.denominator_column for m in metrics))
  ctx.distinct(design.design_id, change, tuple(map(str, metrics)))
  mirrored = change == "exchanged"
  for k, m in enumerate(metrics):
    if mirrored and m.denominator_column:
      # Only the control averages of ratios are kept when period effects are removed.
      continue
    b, g = base.iloc[k].to_dict(), got.iloc[k].to_dict()
    s = factor.get(m.column, 1.0) / factor.get(m.denominator_column, 1.0)
    sign = -1 if mirrored else 1
    want = dict(b)
    want["absolute_difference"] = sign * s * b["absolute_difference"]
    want["statistic"] = sign * b["statistic"]
    want["standard_error"] = s * b["standard_error"]
    want["control_average"] = s * b["control_average"]
    lo, hi = b["absolute_difference_lower_bound"], b["absolute_difference_upper_bound"]
    want["absolute_difference_lower_bound"] = -hi if mirrored else s * lo
    want["absolute_difference_upper_bound"] = -lo if mirrored else s * hi
    size = max(abs(want["control_average"]), want["standard_error"], abs(want["absolute_difference"]))
    if size > 1e5 * want["standard_error"]:
      continue
    for field in ref.FIELDS + ["relative_difference_lower_bound", "relative_difference_upper_bound"]:
      if mirrored and field.startswith(("relative", "control")):
        continue
      atol = 1e-9 * size
      if field == "is_significant":
        if abs(b["p_value"] - b["alpha"]) < 1e-6:
          continue
        atol = 0
      elif field in ("degrees_of_freedom", "sample_size", "p_value", "alpha", "statistic"):
        atol = 1e-6
      elif field.startswith("relative"):
        if not np.isfinite(b[field]) or abs(b[field]) > 1e3:
          continue
        atol = 1e-5
      ctx.close(float(g[field]), float(want[field]), f"{change}: {field}", rtol=1e-5, atol=atol, metric=str(m), design=str(design))
  ctx.sample(change=change, design=design.design_id, metrics=[str(m) for m in metrics], p=base["p_value"].tolist())
