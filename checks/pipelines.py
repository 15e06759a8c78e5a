"""P04, P05: the preparation pipelines, from raw rows to prepared data."""

import collections
import datetime as dt

import numpy as np
import pandas as pd

from feedx import data_preparation as dp
from feedx import experiment_design

from mon import core
from mon import gen
from mon import ref

PROPS = {}
STANDARD = ["clicks", "impressions", "total_cost", "conversions", "total_conversion_value"]


def _ids(rng, n):
  """Item ids as raw values, and as the text they stand for."""
  if gen.chance(rng, 0.3):
    raw = [int(v) for v in rng.permutation(np.arange(n) * 3 + int(rng.integers(0, 10**7)))]
    return raw, [str(v) for v in raw]
  raw = gen.item_ids(rng, n)
  return raw, list(raw)


def _raw_dates(rng, days):
  kind = gen.pick(rng, ["text", "timestamp"])
  return [d.isoformat() for d in days] if kind == "text" else [pd.Timestamp(d) for d in days]


def _presence(rng, n_items, n_days):
  """Which (item, day) cells have a row. Every day and every item has at least one."""
  present = rng.random((n_items, n_days)) < gen.pick(rng, [0.05, 0.4, 0.9, 0.97, 1.0])
  if gen.chance(rng, 0.3):
    # Items that appear late or disappear early.
    for i in range(n_items):
      if gen.chance(rng, 0.3):
        k = int(rng.integers(0, n_days + 1))
        if gen.chance(rng, 0.5):
          present[i, :k] = False
        else:
          present[i, k:] = False
  for d in range(n_days):
    if not present[:, d].any():
      present[rng.integers(n_items), d] = True
  for i in range(n_items):
    if not present[i].any():
      present[i, rng.integers(n_days)] = True
  return present


# ------------------------------------------------------------------------ P04
P04 = PROPS["P04"] = core.Property(
    "P04",
    rule="Raw daily and weekly datasets: sparse, shuffled, with partial last weeks, text or numeric "
    "ids, text or timestamp dates, permuted column names, junk columns, each of the primary "
    "metrics. distinct = (items, days, frequency, metric, naming, rows).",
    require={"prepared": 100, "cells": 5000, "zero_filled_weeks": 200, "partial_last_week": 40,
             "weekly": 20, "downsampled": 30, "downsample_calls": 60})


def _historical_raw(rng):
  frequency = gen.pick(rng, [1, 1, 1, 7])
  n_items = gen.size(rng, 3, 30, 1200, 0.03)
  n_days = int(rng.integers(7, 50)) if frequency == 1 else int(rng.integers(2, 9))
  first = gen.start_date(rng)
  days = [first + dt.timedelta(days=frequency * d) for d in range(n_days)]
  raw_ids, ids = _ids(rng, n_items)
  present = _presence(rng, n_items, n_days)
  cells = [(i, d) for i in range(n_items) for d in range(n_days) if present[i, d]]
  rng.shuffle(cells)
  values = gen.pick(rng, [rng.gamma(0.7, 9, len(cells)), rng.poisson(2, len(cells)),
                          rng.poisson(2, len(cells)).astype(float), np.round(rng.gamma(1, 5, len(cells)), 2)])
  metric = gen.pick(rng, ["clicks", "impressions", "conversions", "total_conversion_value",
                          "total_cost", "other"])
  if metric == "other":
    columns = gen.pick(rng, [("id", "day", "revenue"), ("item_id", "date", "my metric"),
                             ("date", "item_id", "margin")])
  else:
    columns = gen.pick(rng, [("id", "day", "m"), ("item_id", "date", metric), ("date", "item_id", metric),
                             (metric, "date", "item_id"), ("offer id", "Day", "Clicks")])
  dates = _raw_dates(rng, days)
  junk = {c: rng.gamma(1, 3, len(cells)) for c in ["clicks", "conversions", "zzz", "week_id"]
          if c not in columns and gen.chance(rng, 0.5)}
  data = pd.DataFrame({columns[0]: [raw_ids[i] for i, _ in cells],
                       columns[1]: [dates[d] for _, d in cells],
                       columns[2]: values, **junk})
  data = gen.maybe_categorical(rng, data, columns[0])
  if gen.chance(rng, 0.3):
    data.index = gen.row_labels(rng, len(data))
  totals = collections.defaultdict(float)
  for (i, d), v in zip(cells, values):
    totals[ids[i], (d if frequency == 7 else d // 7)] += float(v)
  weeks = range(n_days if frequency == 7 else n_days // 7)
  return data, columns, metric, ids, totals, weeks, first, frequency, n_days


def _prepare(data, columns, metric, seed, fraction):
  with core.captured():
    return dp.prepare_and_validate_historical_data(
        data, item_id_column=columns[0], date_column=columns[1], primary_metric=metric,
        primary_metric_column=columns[2], rng=np.random.RandomState(seed),
        item_sample_fraction=fraction)


@P04.scenario(quick=160, thorough=4000)
def prepared_history(ctx, rng):
  data, columns, metric, ids, totals, weeks, first, frequency, n_days = _historical_raw(rng)
  name = columns[2] if metric == "other" else metric
  before = gen.frame_fingerprint(data)
  out = _prepare(data, columns, metric, 0, 1.0)
  ctx.event("prepared")
  ctx.event("weekly", frequency == 7)
  ctx.event("partial_last_week", frequency == 1 and n_days % 7 != 0)
  ctx.distinct(len(ids), n_days, frequency, metric, columns, len(data))
  ctx.equal(gen.frame_fingerprint(data), before, "the raw data was modified")
  ctx.equal(sorted(out.columns), sorted(["item_id", "week_id", "week_start", name]), "wrong columns")
  seen = {}
  for item, week, begins, value in zip(out["item_id"], out["week_id"], out["week_start"], out[name]):
    ctx.check((item, week) not in seen, "an item-week appears twice", item=item, week=week)
    seen[item, int(week)] = value
    ctx.equal(ref.as_date(pd.Timestamp(begins)), ref.week_start(int(week), first), "wrong week start",
              week=week, first=str(first))
  ctx.check(set(seen) == {(i, w) for i in ids for w in weeks}, "not one row per item and complete week",
            rows=len(seen), items=len(ids), weeks=len(weeks), days=n_days)
  for key, value in seen.items():
    ctx.event("cells")
    ctx.event("zero_filled_weeks", key not in totals)
    ctx.close(value, totals.get(key, 0.0), "a weekly total is not the sum of its raw rows", rtol=1e-12,
              atol=1e-12, key=key)
  ctx.check(pd.api.types.is_float_dtype(out[name]), "the metric is not floating point")
  if len(data):
    ctx.sample(items=len(ids), days=n_days, metric=metric, columns=columns, rows=len(data), first=str(first))

  # Downsampling selects items of exactly this data.
  fraction = gen.pick(rng, [0.2, 0.34, 0.5, 0.75, 0.9, round(float(rng.uniform(0.1, 1)), 3)])
  if round(fraction * len(ids)) < 1:
    return
  seed = int(rng.integers(2**31))
  sampled = _prepare(data, columns, metric, seed, fraction)
  again = _prepare(data, columns, metric, seed, fraction)
  ctx.event("downsampled")
  ctx.equal(gen.frame_fingerprint(sampled), gen.frame_fingerprint(again), "downsampling is not reproducible")
  kept = set(sampled["item_id"])
  ctx.check(abs(len(kept) - fraction * len(ids)) <= 0.5 + 1e-9, "wrong number of items kept",
            kept=len(kept), of=len(ids), fraction=fraction)
  rows = lambda f: sorted(map(repr, f[sorted(out.columns)].itertuples(index=False)))
  ctx.check(rows(sampled) == rows(out[out["item_id"].isin(kept)]),
            "downsampling changed or lost rows of the items it kept")


@P04.scenario(quick=80, thorough=1500)
def downsample(ctx, rng):
  n_items = gen.size(rng, 2, 60, 6000)
  ids = gen.item_ids(rng, n_items)
  per = rng.integers(1, 6, n_items)
  items = np.repeat(np.array(ids, dtype=object), per)
  column = gen.pick(rng, ["item_id", "x"])
  data = pd.DataFrame({column: items, "v": rng.normal(size=len(items))})
  data = gen.shuffled(rng, gen.maybe_categorical(rng, data, column))
  if gen.chance(rng, 0.3):
    data.index = gen.row_labels(rng, len(data))
  fraction = gen.pick(rng, [0.1, 0.25, 0.5, 0.99, 1.0, float(rng.uniform(0.01, 1))])
  before = gen.frame_fingerprint(data)
  with core.captured():
    out = dp.downsample_items(data, fraction, column, np.random.RandomState(int(rng.integers(2**31))))
  ctx.event("downsample_calls")
  ctx.distinct(n_items, len(data), fraction)
  ctx.equal(gen.frame_fingerprint(data), before, "downsampling modified its input")
  kept = set(out[column])
  ctx.check(abs(len(kept) - fraction * n_items) <= 0.5 + 1e-9, "wrong number of items kept",
            kept=len(kept), of=n_items, fraction=fraction)
  if fraction == 1.0:
    ctx.equal(len(out), len(data), "a fraction of one dropped rows")
  want = data[data[column].isin(kept)]
  ctx.equal(sorted(zip(out.index, out[column], out["v"])), sorted(zip(want.index, want[column], want["v"])),
            "not all rows of the sampled items were kept unchanged")
  bad = gen.pick(rng, [0.0, -0.1, 1.0001, 2])
  with ctx.raises(ValueError, "an invalid fraction", fraction=bad):
    dp.downsample_items(data, bad, column, np.random.RandomState(0))
  with ctx.raises(ValueError, "a missing column"):
    dp.downsample_items(data, 0.5, "not there", np.random.RandomState(0))


@P04.scenario(quick=8, thorough=60)
def downsample_is_uniform(ctx, rng):
  """Every item is sampled equally often, however many rows it has."""
  n_items, repeats = 12, 600
  items = np.repeat(np.arange(n_items), np.arange(1, n_items + 1) ** 2)
  data = pd.DataFrame({"item_id": items, "v": 1.0})
  counts = np.zeros(n_items)
  state = np.random.RandomState(int(rng.integers(2**31)))
  with core.captured():
    for _ in range(repeats):
      counts[dp.downsample_items(data, 0.25, "item_id", state)["item_id"].unique()] += 1
  z = (counts - repeats / 4) / np.sqrt(repeats * 3 / 16)
  ctx.event("uniform_draws", repeats)
  ctx.check(np.abs(z).max() < 6, "items are not sampled equally often", counts=counts)


@P04.scenario(quick=24, thorough=200)
def rejected(ctx, rng):
  data, columns, metric, *_ = _historical_raw(rng)
  with ctx.raises(ValueError, "an unknown primary metric"):
    dp.prepare_and_validate_historical_data(
        data, item_id_column=columns[0], date_column=columns[1], primary_metric="revenue",
        primary_metric_column=columns[2], rng=np.random.RandomState(0))
  # A repeated row is not silently summed or dropped.
  if metric != "other":
    doubled = pd.concat([data, data.sample(1, random_state=int(rng.integers(2**31)))])
    dates = pd.to_datetime(data[columns[1]]).drop_duplicates().sort_values()
    if (dates.diff().iloc[1:].dt.days == 7).all():
      with ctx.raises(ValueError, "a duplicated weekly row"):
        _prepare(doubled, columns, metric, 0, 1.0)


# ------------------------------------------------------------------------ P05
P05 = PROPS["P05"] = core.Property(
    "P05",
    rule="Performance data (daily or weekly, sparse, shuffled, running or concluded, with extra "
    "dates before and after) and assignment lists with missing and extra items, for regular "
    "and crossover designs. distinct = (design, calendar, presence, missing, extra).",
    require={"prepared": 60, "cells": 50000, "missing_items": 100, "unassigned_items": 60,
             "crossover": 15, "regular": 15, "weekly": 8, "running": 8, "not_started": 3, "unlabelled_rows": 500,
             "zero_filled": 5000})


def experiment_inputs(rng, light=False, in_window=False):
  """Raw inputs of an experiment preparation and everything the oracle needs."""
  metrics = [m for m in STANDARD if gen.chance(rng, 0.5)] or ["clicks"]
  others = [m for m in ["margin", "my metric"] if gen.chance(rng, 0.3)]
  metric = gen.pick(rng, metrics + others)
  long = gen.chance(rng, 0.05)
  design = experiment_design.ExperimentDesign(**gen.design_params(
      rng, n_items=int(rng.integers(58, 75)) if light or long else gen.size(rng, 58, 110, 1000, 0.03), metric=metric,
      max_runtime=14 if long else 4 if light else 6, max_pretest=8 if long else 2 if light else 3))
  design.coinflip_salt = gen.salt(rng)
  n = design.n_items_after_pre_trim
  numeric = gen.chance(rng, 0.3)
  ids = gen.balanced_ids(rng, n, design.coinflip_salt, "number" if numeric else None)
  frequency = gen.pick(rng, [1, 1, 7])
  start = gen.start_date(rng)
  concluded = gen.chance(rng, 0.7)
  before = after = 0
  first_offset = -7 * design.pretest_weeks
  if frequency == 1:
    if not in_window:
      before = int(gen.pick(rng, [0, 0, 1, 5, 9]))
      after = int(gen.pick(rng, [0, 0, 1, 6, 8]))
    last = 7 * design.runtime_weeks - 1 + after
    if after == 0 and gen.chance(rng, 0.3):
      last -= int(rng.integers(0, 7))  # The last week is partly missing.
    if not concluded:
      last = max(first_offset - before + 1, last - int(rng.integers(0, 7 * design.runtime_weeks)))
      if design.pretest_weeks and gen.chance(rng, 0.3):
        # The experiment has not started yet.
        last = int(rng.integers(first_offset + 1, 1))
    offsets = list(range(first_offset - before, last + 1))
  else:
    if not in_window:
      before, after = 7 * int(rng.integers(0, 2)), 7 * int(rng.integers(0, 2))
    last = 7 * (design.runtime_weeks - 1) + after
    if not concluded:
      last = max(first_offset - before + 7, last - 7 * int(rng.integers(0, design.runtime_weeks)))
      if design.pretest_weeks > 1 and gen.chance(rng, 0.3):
        last = -7 * int(rng.integers(1, design.pretest_weeks))
    offsets = list(range(first_offset - before, last + 1, 7))
  if len(offsets) < 2:
    return experiment_inputs(rng, light, in_window)
  days = [start + dt.timedelta(days=d) for d in offsets]
  n_days = len(days)

  n_extra = int(gen.pick(rng, [0, 0, 3, 20]))
  extra = []
  while len(extra) < n_extra:
    candidate = str(int(rng.integers(10**8, 10**9))) if numeric else f"extra {len(extra)}"
    if candidate not in ids and candidate not in extra:
      extra.append(candidate)
  everyone = ids + extra
  present = _presence(rng, len(everyone), n_days)
  missing = set()
  if gen.chance(rng, 0.5):
    for i in range(n):
      if gen.chance(rng, 0.1):
        missing.add(ids[i])
        present[i] = False
  for d in range(n_days):
    if not present[:, d].any():
      present[next(i for i in range(n) if ids[i] not in missing), d] = True
  cells = [(i, d) for i in range(len(everyone)) for d in range(n_days) if present[i, d]]
  rng.shuffle(cells)
  values = {m: gen.pick(rng, [rng.gamma(0.7, 9, len(cells)), rng.poisson(1, len(cells)).astype(float)])
            for m in metrics + others}
  negative = [m for m in others if gen.chance(rng, 0.5)]
  for m in negative:
    values[m] = values[m] - 5.0
  raw_id = (lambda x: int(x)) if numeric else (lambda x: x)
  item_column = gen.pick(rng, ["item_id", "offer", "Item ID"])
  date_column = gen.pick(rng, ["date", "day"])
  assignment_column = gen.pick(rng, ["treatment_assignment", "group", "arm"])
  raw_names = list(metrics) if gen.chance(rng, 0.5) else [
      str(m) for m in rng.permutation(np.array(metrics, dtype=object))]
  raw_column = dict(zip(metrics, raw_names))
  dates = _raw_dates(rng, days)
  frame = {item_column: [raw_id(everyone[i]) for i, _ in cells], date_column: [dates[d] for _, d in cells]}
  for m in metrics:
    frame[raw_column[m]] = values[m]
  for m in others:
    frame[m] = values[m]
  for c in ["junk", "time_period", "week_id"]:
    if gen.chance(rng, 0.3):
      frame[c] = ["x"] * len(cells)
  performance = gen.maybe_categorical(rng, pd.DataFrame(frame), item_column)
  if gen.chance(rng, 0.4):
    performance.index = gen.row_labels(rng, len(performance))
  flips = {i: ref.coinflip(design.coinflip_salt, i) for i in ids}
  order = list(rng.permutation(np.array(ids, dtype=object)))
  assignments = pd.DataFrame({
      item_column: [raw_id(i) for i in order],
      assignment_column: [flips[i] for i in order]})
  if gen.chance(rng, 0.3):
    assignments[assignment_column] = assignments[assignment_column].astype(gen.pick(rng, [float, "int8", str]))
  cell_values = {(everyone[i], days[d]): k for k, (i, d) in enumerate(cells)}
  at_least = {m: "at_least_one_" + m for m in metrics + others if gen.chance(rng, 0.3)}
  kwargs = dict(
      daily_performance_data=performance, treatment_assignment_data=assignments, design=design,
      experiment_start_date=start.isoformat(), item_id_column=item_column, date_column=date_column,
      treatment_assignment_column=assignment_column, other_metric_columns=others or None,
      can_be_negative_metric_columns=negative or None, at_least_one_metrics=at_least or None,
      experiment_has_concluded=concluded,
      **{f"{m}_column": raw_column[m] for m in metrics})
  labelled = all(ref.period_label(ref.week_of(d, start), 0, design) for d in days)
  if in_window and not labelled:
    return experiment_inputs(rng, light, in_window)
  return dict(kwargs=kwargs, design=design, ids=ids, extra=extra, missing=missing, days=days, start=start,
              values=values, cells=cell_values, flips=flips, metrics=metrics + others,
              at_least=at_least, frequency=frequency, concluded=concluded, labelled=labelled)


@P05.scenario(quick=240, thorough=6000)
def prepared_experiment(ctx, rng):
  e = experiment_inputs(rng)
  kwargs, design = e["kwargs"], e["design"]
  # Weeks outside the design have no period label, which counts as a null.
  skip = [] if e["labelled"] else ["no_nulls"]
  frames = [kwargs["daily_performance_data"], kwargs["treatment_assignment_data"]]
  before = [gen.frame_fingerprint(f) for f in frames]
  with core.captured() as printed:
    out = dp.prepare_and_validate_experiment_data(**kwargs, skip_validation_checks=skip or None)
  ctx.event("prepared")
  ctx.event("missing_items", len(e["missing"]))
  ctx.event("unassigned_items", len(e["extra"]))
  ctx.event("crossover" if design.is_crossover else "regular")
  ctx.event("weekly", e["frequency"] == 7)
  ctx.event("running", not e["concluded"])
  ctx.event("not_started", e["days"][-1] < e["start"])
  ctx.distinct(design.design_id, e["start"], len(e["days"]), len(e["cells"]), len(e["missing"]), len(e["extra"]))
  ctx.equal([gen.frame_fingerprint(f) for f in frames], before, "the raw data was modified")
  ctx.equal(sorted(out.columns),
            sorted(["item_id", "date", "week_id", "week_start", "time_period", "treatment_assignment"]
                   + e["metrics"] + list(e["at_least"].values())), "wrong columns")
  keys = list(zip(out["item_id"], [ref.as_date(d) for d in out["date"]]))
  ctx.equal(len(keys), len(set(keys)), "an item and date appears twice")
  ctx.check(set(keys) == {(i, d) for i in e["ids"] for d in e["days"]},
            "not one row per assigned item and observed date",
            rows=len(keys), items=len(e["ids"]), dates=len(e["days"]))
  if e["missing"]:
    ctx.check(f"{len(e['missing'])} / {len(e['ids'])}" in printed.getvalue(),
              "the missing items are not reported", printed=printed.getvalue()[:300])
  columns = {c: out[c].tolist() for c in out.columns}
  position = [e["cells"].get(k, -1) for k in keys]
  want = {}
  for m in e["metrics"]:
    lookup = np.append(e["values"][m], 0.0)
    want[m] = lookup[position]
  ctx.event("cells", len(keys))
  ctx.event("zero_filled", sum(p < 0 for p in position))
  for m in e["metrics"]:
    wrong = np.flatnonzero(np.asarray(columns[m], dtype=float) != want[m])
    ctx.check(len(wrong) == 0, f"{m} is not the raw value or zero",
              rows=[(keys[k], columns[m][k], want[m][k]) for k in wrong[:5]], n=len(wrong))
  for m, flag in e["at_least"].items():
    ctx.equal(columns[flag], [int(v > 0) for v in want[m]], f"{flag} is wrong")
  weeks = {d: ref.week_of(d, e["start"]) for d in e["days"]}
  labels = {d: ref.period_label(weeks[d], 0, design) for d in e["days"]}
  begins = {d: ref.week_start(weeks[d], e["start"]) for d in e["days"]}
  for k, (item, day) in enumerate(keys):
    ctx.events["monitor_checks"] += 4
    if columns["week_id"][k] != weeks[day]:
      ctx.fail("wrong week", day=str(day), start=str(e["start"]), got=columns["week_id"][k])
    if ref.as_date(columns["week_start"][k]) != begins[day]:
      ctx.fail("wrong week start", day=str(day), start=str(e["start"]), got=columns["week_start"][k])
    label = columns["time_period"][k]
    if not isinstance(label, str):
      label = None
      ctx.events["unlabelled_rows"] += 1
    if label != labels[day]:
      ctx.fail("wrong period", day=str(day), start=str(e["start"]), got=label, want=labels[day], design=str(design))
    if columns["treatment_assignment"][k] != e["flips"][item]:
      ctx.fail("wrong assignment", item=item, got=columns["treatment_assignment"][k])
  ctx.sample(design=design.design_id, crossover=design.is_crossover, days=len(e["days"]), items=len(e["ids"]),
             missing=len(e["missing"]), extra=len(e["extra"]), rows=len(e["cells"]))


@P05.scenario(quick=30, thorough=500)
def independent_of_order_and_junk(ctx, rng):
  """Shuffled rows and unassigned items do not change the prepared rows."""
  e = experiment_inputs(rng, light=True)
  kwargs = e["kwargs"]
  skip = None if e["labelled"] else ["no_nulls"]
  with core.captured():
    out = dp.prepare_and_validate_experiment_data(**kwargs, skip_validation_checks=skip)
  performance = kwargs["daily_performance_data"]
  item, date = kwargs["item_id_column"], kwargs["date_column"]
  poison = performance.sample(min(9, len(performance)), random_state=1).copy()
  poison[item] = (np.arange(len(poison)) + 2 * 10**9 if pd.api.types.is_integer_dtype(performance[item].dtype)
                  else [f"poison {i}" for i in range(len(poison))])
  for m in performance.columns:
    if m not in (item, date) and performance[m].dtype == float:
      poison[m] = gen.pick(rng, [-1e9, np.inf, 1e12])
  changed = gen.shuffled(rng, pd.concat([performance, poison]))
  with core.captured():
    other = dp.prepare_and_validate_experiment_data(**dict(
        kwargs, daily_performance_data=changed,
        treatment_assignment_data=gen.shuffled(rng, kwargs["treatment_assignment_data"])),
        skip_validation_checks=skip)
  ctx.event("related_pairs")
  rows = lambda f: sorted(map(repr, f[sorted(out.columns)].itertuples(index=False)))
  ctx.check(rows(out) == rows(other), "row order or unassigned items changed the prepared data")


@P05.scenario(quick=16, thorough=100)
def rejected(ctx, rng):
  e = experiment_inputs(rng, light=True, in_window=True)
  kwargs = dict(e["kwargs"])
  column = gen.pick(rng, ["item_id_column", "date_column"])
  with core.captured():
    kind, error = core.outcome(dp.prepare_and_validate_experiment_data, **dict(kwargs, **{column: "not there"}))
  ctx.check(kind == "error" and isinstance(error, (ValueError, KeyError)), "a missing column was accepted", column=column)
  # A duplicated raw row can never pass silently.
  performance = kwargs["daily_performance_data"]
  known = performance[performance[kwargs["item_id_column"]].astype(str).isin(e["ids"])]
  kwargs["daily_performance_data"] = pd.concat([performance, known.sample(1, random_state=0)])
  with ctx.raises(ValueError, "a duplicated raw row"):
    with core.captured():
      dp.prepare_and_validate_experiment_data(**kwargs)
  # Nor can an item that is assigned twice.
  kwargs = dict(e["kwargs"])
  assignments = kwargs["treatment_assignment_data"]
  twice = assignments.sample(1, random_state=0)
  if gen.chance(rng, 0.7):
    arm = kwargs["treatment_assignment_column"]
    other = 1 - int(twice[arm].iloc[0])
    twice = twice.assign(**{arm: [str(other) if assignments[arm].dtype == object else other]})
  kwargs["treatment_assignment_data"] = gen.shuffled(rng, pd.concat([assignments, twice]))
  with ctx.raises(ValueError, "an item with two assignments"):
    with core.captured():
      dp.prepare_and_validate_experiment_data(**kwargs)
  ctx.event("assigned_twice")
