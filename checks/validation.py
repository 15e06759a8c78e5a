"""P06-P08: validation rejects corrupted data, and only corrupted data."""

import datetime as dt
import functools
import math
import re

import numpy as np
import pandas as pd

from feedx import data_preparation as dp
from feedx import experiment_design

from mon import core
from mon import gen
from mon import ref

PROPS = {}
HISTORICAL = ["no_nulls", "no_duplicate_items_per_date", "dates_are_daily_or_weekly",
              "week_ids_are_consecutive_integers", "all_metrics_are_finite",
              "all_metrics_are_non_negative"]
EXPERIMENT = ["primary_metric_in_metrics"] + HISTORICAL + [
    "number_of_items_matches_design", "experiment_dates_match_design",
    "treatment_assignment_is_unique", "coinflip_salt_validation", "no_sample_ratio_mismatch"]


# ------------------------------------------------------------- the oracle
def binomial_two_sided(k, n):
  """The exact two-sided p-value of k heads of n fair coins, by counting."""
  if n == 0:
    return 1.0
  far = max(k, n - k)
  if 2 * far == n:
    return 1.0
  tail = term = math.comb(n, far)
  for j in range(far, n):
    term = term * (n - j) // (j + 1)
    tail += term
  return 2 * tail / 2**n


@functools.lru_cache(maxsize=None)
def least_balanced(n):
  """The least number of heads of n coins that is not significant at 0.001."""
  low, high = 0, n // 2
  while low < high:
    middle = (low + high) // 2
    if binomial_two_sided(middle, n) >= 0.001:
      high = middle
    else:
      low = middle + 1
  return low


def is_null(v):
  return v is None or v is pd.NaT or v != v


def settle(bad, maybe):
  """Rows without a key make the checks on keys unspecified, whatever they say."""
  unsure = bad & maybe if "no_duplicate_items_per_date" in maybe else set()
  return bad - unsure, maybe | unsure


def failing_checks(d):
  """(certainly failing, possibly failing) checks of a dataset and its settings."""
  data, c = d["data"], d["columns"]
  bad, maybe = set(), set()
  columns = {name: data[name].tolist() for name in data.columns}
  if any(is_null(v) for values in columns.values() for v in values):
    bad.add("no_nulls")
  items, dates, weeks = columns[c["item"]], columns[c["date"]], columns[c["week"]]
  if any(map(is_null, items)) or any(map(is_null, dates)) or any(map(is_null, weeks)):
    # What the other checks make of rows without a key is not specified.
    maybe |= set(EXPERIMENT) - {"no_nulls", "all_metrics_are_finite",
                                "all_metrics_are_non_negative", "primary_metric_in_metrics"}
  keys = list(zip(items, dates))
  if len(set(keys)) != len(keys) or len(keys) != len(set(items)) * len(set(dates)):
    bad.add("no_duplicate_items_per_date")
  days = sorted(set(x for x in dates if not is_null(x)))
  gaps = {(b - a).days for a, b in zip(days, days[1:])}
  if not gaps <= {1} and not gaps <= {7}:
    bad.add("dates_are_daily_or_weekly")
  ids = set(w for w in weeks if not is_null(w))
  if ids and max(ids) - min(ids) + 1 != len(ids):
    bad.add("week_ids_are_consecutive_integers")
  per_day = {}
  for w, x in zip(weeks, dates):
    if not is_null(x) and not is_null(w):
      per_day.setdefault(x, set()).add(w)
  ordered = [per_day[x] for x in sorted(per_day)]
  if any(min(a) > max(b) for a, b in zip(ordered, ordered[1:])):
    bad.add("week_ids_are_consecutive_integers")
  if any(len(a) > 1 for a in ordered):
    maybe.add("week_ids_are_consecutive_integers")
  for m in d["metrics"]:
    if not all(math.isfinite(v) for v in columns[m] if v is not None) or None in columns[m]:
      bad.add("all_metrics_are_finite")
    if m not in d["negative"] and any(v is not None and v < 0 for v in columns[m]):
      bad.add("all_metrics_are_non_negative")
  if d["design"] is None:
    return settle(bad, maybe)
  design = d["design"]
  if design.primary_metric not in d["metrics"]:
    bad.add("primary_metric_in_metrics")
  if len(set(items)) != design.n_items_after_pre_trim:
    bad.add("number_of_items_matches_design")
  start = pd.Timestamp(d["start"])
  first = start - pd.Timedelta(days=7 * design.pretest_weeks)
  last = start + pd.Timedelta(days=7 * (design.runtime_weeks - 1))
  if days[0] > first or (d["concluded"] and days[-1] < last):
    bad.add("experiment_dates_match_design")
  groups = columns[c["group"]]
  by_item = {}
  for i, g in zip(items, groups):
    by_item.setdefault(i, set()).add(g)
  if any(len(g) != 1 for g in by_item.values()):
    bad.add("treatment_assignment_is_unique")
  if any(g != ref.coinflip(design.coinflip_salt, i) for i, gs in by_item.items() for g in gs):
    bad.add("coinflip_salt_validation")
  treated = sum(1 in g for g in by_item.values())
  control = sum(0 in g for g in by_item.values())
  p = binomial_two_sided(treated, treated + control)
  if p < 0.001:
    bad.add("no_sample_ratio_mismatch")
  return settle(bad, maybe)


# ------------------------------------------------------------ the workloads
def _columns(rng):
  return gen.pick(rng, [
      dict(item="item_id", date="date", week="week_id", group="treatment_assignment"),
      dict(item="offer", date="week_start", week="w", group="arm")])


def clean_historical(rng, large=False):
  c = _columns(rng)
  n_items = int(rng.integers(300, 4000)) if large else int(rng.integers(2, 25))
  frequency = gen.pick(rng, [1, 7, 7])
  n_days = int(rng.integers(3, 6 if large else 22 if frequency == 1 else 10))
  first = gen.start_date(rng)
  anchor = first + dt.timedelta(days=int(rng.integers(-9, 10)))
  days = [first + dt.timedelta(days=frequency * k) for k in range(n_days)]
  ids = gen.item_ids(rng, n_items)
  data = pd.DataFrame({
      c["item"]: np.repeat(np.array(ids, dtype=object), n_days),
      c["date"]: pd.to_datetime(np.tile(np.array([d.isoformat() for d in days]), n_items)),
      c["week"]: np.tile([ref.week_of(d, anchor) for d in days], n_items),
      "clicks": rng.poisson(1, n_items * n_days).astype(float),
      "other": rng.normal(size=n_items * n_days)})
  if gen.chance(rng, 0.6):
    data = gen.shuffled(rng, data).reset_index(drop=True)
  return dict(data=data, columns=c, metrics=["clicks"], negative=[], design=None)


def run_historical(d, skip=None):
  c = d["columns"]
  dp.validate_historical_data(
      d["data"], item_id_column=c["item"], date_column=c["date"], week_id_column=c["week"],
      primary_metric_column=d["metrics"][0], skip_validation_checks=skip)


def clean_experiment(rng, large=False):
  c = _columns(rng)
  metric = gen.pick(rng, ["clicks", "revenue"])
  n_before = int(rng.integers(400, 3000)) if large else int(rng.integers(58, 75))
  long = not large and gen.chance(rng, 0.25)
  design = experiment_design.ExperimentDesign(**gen.design_params(
      rng, n_items=n_before, metric=metric, max_runtime=2 if large else 12 if long else 4,
      max_pretest=1 if large else 10 if long else 2))
  design.coinflip_salt = gen.salt(rng)
  n = design.n_items_after_pre_trim
  # The most unequal split that passes the ratio check, or an ordinary one.
  low = least_balanced(n)
  treated = int(gen.pick(rng, [low, n - low, n // 2, int(rng.integers(low, n - low + 1))]))
  ids, quota = [], {1: treated, 0: n - treated}
  k = 0
  style = gen.pick(rng, ["item_{}", "{}", "é{}"])
  while len(ids) < n:
    item = style.format(k)
    k += 1
    flip = ref.coinflip(design.coinflip_salt, item)
    if quota[flip]:
      quota[flip] -= 1
      ids.append(item)
  rng.shuffle(ids)
  frequency = gen.pick(rng, [7] if large or long else [1, 7, 7])
  start = gen.start_date(rng)
  concluded = gen.chance(rng, 0.7)
  first = -7 * design.pretest_weeks - (int(gen.pick(rng, [0, 0, 1, 7])) if frequency == 1 else 0)
  last = 7 * (design.runtime_weeks - 1) + (int(gen.pick(rng, [0, 0, 3, 6, 8])) if frequency == 1 else 0)
  if not concluded and gen.chance(rng, 0.5):
    last = max(first + frequency, last - 7)
  if last <= first:
    last = first + frequency
  days = [start + dt.timedelta(days=k) for k in range(first, last + 1, frequency)]
  m = len(days) * n
  # Names of metrics may contain one another.
  margin = gen.pick(rng, ["margin", "net revenue", "clicks_margin", "rev", "click", "REVENUE"])
  data = pd.DataFrame({
      c["item"]: np.repeat(np.array(ids, dtype=object), len(days)),
      c["date"]: pd.to_datetime(np.tile(np.array([d.isoformat() for d in days]), n)),
      c["week"]: np.tile([ref.week_of(d, start) for d in days], n),
      "clicks": rng.poisson(1, m).astype(float), "revenue": rng.gamma(1, 3, m),
      margin: rng.normal(size=m), "unused": rng.normal(size=m)})
  data[c["group"]] = [ref.coinflip(design.coinflip_salt, i) for i in data[c["item"]]]
  metrics = ["clicks", "revenue"] if gen.chance(rng, 0.5) else [metric]
  negative = []
  if gen.chance(rng, 0.5):
    metrics = metrics + [margin]
    negative = [margin]
  if gen.chance(rng, 0.4):
    data = gen.shuffled(rng, data).reset_index(drop=True)
  return dict(data=data, columns=c, metrics=metrics, negative=negative, design=design,
              start=start.isoformat(), concluded=concluded, days=days)


def run_experiment(d, skip=None):
  c = d["columns"]
  dp.validate_experiment_data(
      d["data"], design=d["design"], item_id_column=c["item"], date_column=c["date"],
      week_id_column=c["week"], treatment_assignment_column=c["group"],
      metric_columns=d["metrics"], experiment_start_date=d["start"],
      experiment_has_concluded=d["concluded"], can_be_negative_metric_columns=d["negative"] or None,
      skip_validation_checks=skip)


# ----------------------------------------------------------------- the faults
def _row(rng, d):
  return int(gen.pick(rng, [0, len(d["data"]) - 1, int(rng.integers(len(d["data"])))]))


def _set(d, rows, column, value):
  data = d["data"].copy()
  if isinstance(value, str) or data[column].dtype == object:
    data[column] = data[column].astype(object)
  data.loc[data.index[rows], column] = value
  d["data"] = data


def null_metric(rng, d):
  _set(d, [_row(rng, d)], gen.pick(rng, d["metrics"]), np.nan)


def null_unused(rng, d):
  column = "other" if d["design"] is None else "unused"
  _set(d, [_row(rng, d)], column, np.nan)


def null_item(rng, d):
  _set(d, [_row(rng, d)], d["columns"]["item"], gen.pick(rng, [None, np.nan]))


def null_date(rng, d):
  _set(d, [_row(rng, d)], d["columns"]["date"], pd.NaT)


def duplicate_row(rng, d):
  extra = d["data"].iloc[[_row(rng, d)]].copy()
  if gen.chance(rng, 0.5):
    extra[d["metrics"][0]] += 1.0
  d["data"] = pd.concat([d["data"], extra], ignore_index=gen.chance(rng, 0.5))


def missing_rows(rng, d):
  rows = {_row(rng, d) for _ in range(int(gen.pick(rng, [1, 1, 2, 5])))}
  d["data"] = d["data"].drop(index=d["data"].index[sorted(rows)])


def swapped_row(rng, d):
  """One item's row on a date belongs to another item: the row count is right."""
  data, item = d["data"], d["columns"]["item"]
  ids = data[item].dropna().unique().tolist()
  row = _row(rng, d)
  others = [i for i in ids if i != data[item].iloc[row]]
  if others:
    other = gen.pick(rng, others)
    _set(d, [row], item, other)
    if d["design"] is not None and gen.chance(rng, 0.5):
      _set(d, [row], d["columns"]["group"], ref.coinflip(d["design"].coinflip_salt, other))


def one_missing_per_date(rng, d):
  """Every date misses one item, not the same one: all the counts are equal."""
  data, item, date = d["data"], d["columns"]["item"], d["columns"]["date"]
  ids = data[item].dropna().unique().tolist()
  drop = []
  for k, (_, rows) in enumerate(data.groupby(date, sort=True)):
    mine = rows.index[rows[item] == ids[k % len(ids)]]
    drop += list(mine[:1])
  d["data"] = data.drop(index=drop)


def new_item_once(rng, d):
  """One extra item that is there on one date only."""
  extra = d["data"].iloc[[_row(rng, d)]].copy()
  extra[d["columns"]["item"]] = "brand new"
  if d["design"] is not None:
    extra[d["columns"]["group"]] = ref.coinflip(d["design"].coinflip_salt, "brand new")
  d["data"] = pd.concat([d["data"], extra], ignore_index=True)


def shifted_date(rng, d):
  """One date of all the items moves."""
  date = d["columns"]["date"]
  days = sorted(d["data"][date].dropna().unique())
  day = gen.pick(rng, [days[0], days[-1], gen.pick(rng, days)])
  rows = np.flatnonzero(d["data"][date] == day)
  shift = int(gen.pick(rng, [-1, 1, -3, 7, 30]))
  _set(d, rows, date, pd.Timestamp(day) + pd.Timedelta(days=shift))


def missing_date(rng, d):
  date = d["columns"]["date"]
  days = sorted(d["data"][date].dropna().unique())
  if len(days) > 3:
    day = gen.pick(rng, [days[0], days[-1], gen.pick(rng, days)])
    d["data"] = d["data"][d["data"][date] != day]


def week_gap(rng, d):
  week = d["columns"]["week"]
  weeks = sorted(d["data"][week].unique())
  if len(weeks) > 1:
    cut = gen.pick(rng, [weeks[-1], gen.pick(rng, weeks[1:])])
    rows = np.flatnonzero(d["data"][week] >= cut)
    _set(d, rows, week, d["data"][week].iloc[rows] + int(gen.pick(rng, [1, 2, 10])))


def weeks_reversed(rng, d):
  del rng
  week = d["columns"]["week"]
  data = d["data"].copy()
  data[week] = -data[week]
  d["data"] = data


def infinite(rng, d):
  _set(d, [_row(rng, d)], gen.pick(rng, d["metrics"]), gen.pick(rng, [np.inf, -np.inf]))


def negative(rng, d):
  _set(d, [_row(rng, d)], gen.pick(rng, d["metrics"]), gen.pick(rng, [-1.0, -1e-9, -1e9]))


def infinite_unused(rng, d):
  _set(d, [_row(rng, d)], "other" if d["design"] is None else "unused", np.inf)


def wrong_item_count(rng, d):
  """A whole item disappears, or a whole item too many."""
  item = d["columns"]["item"]
  ids = d["data"][item].dropna().unique().tolist()
  if gen.chance(rng, 0.5):
    d["data"] = d["data"][d["data"][item] != gen.pick(rng, ids)]
  else:
    extra = d["data"][d["data"][item] == gen.pick(rng, ids)].copy()
    extra[item] = "one more"
    extra[d["columns"]["group"]] = ref.coinflip(d["design"].coinflip_salt, "one more")
    d["data"] = pd.concat([d["data"], extra], ignore_index=True)


def late_start(rng, d):
  date = d["columns"]["date"]
  days = sorted(d["data"][date].dropna().unique())
  k = int(rng.integers(1, max(2, min(9, len(days) - 1))))
  if len(days) - k >= 2:
    d["data"] = d["data"][d["data"][date] >= days[k]]


def early_end(rng, d):
  date = d["columns"]["date"]
  days = sorted(d["data"][date].dropna().unique())
  k = int(rng.integers(1, max(2, min(9, len(days) - 1))))
  if len(days) - k >= 2:
    d["data"] = d["data"][d["data"][date] < days[-k]]


def other_start(rng, d):
  day = dt.date.fromisoformat(d["start"])
  d["start"] = (day + dt.timedelta(days=int(gen.pick(rng, [-8, -7, -1, 1, 7, 8])))).isoformat()


def flipped_item(rng, d):
  """All the rows of one item have the other assignment."""
  item, group = d["columns"]["item"], d["columns"]["group"]
  ids = d["data"][item].dropna().unique().tolist()
  rows = np.flatnonzero(d["data"][item] == gen.pick(rng, ids))
  _set(d, rows, group, 1 - d["data"][group].iloc[rows])


def swapped_pair(rng, d):
  """Two items of different groups take each other's place."""
  item, group = d["columns"]["item"], d["columns"]["group"]
  first = d["data"].dropna(subset=[item]).drop_duplicates(item)
  for g in (0, 1):
    ids = first.loc[first[group] == g, item].tolist()
    rows = np.flatnonzero(d["data"][item] == gen.pick(rng, ids))
    _set(d, rows, group, 1 - g)


def flipped_row(rng, d):
  group = d["columns"]["group"]
  row = _row(rng, d)
  _set(d, [row], group, 1 - d["data"][group].iloc[row])


def other_salt(rng, d):
  d["design"].coinflip_salt = gen.salt(rng) + "!"


def all_flipped(rng, d):
  del rng
  data = d["data"].copy()
  data[d["columns"]["group"]] = 1 - data[d["columns"]["group"]]
  d["data"] = data


def ratio_mismatch(rng, d):
  """Items are renamed so that the coinflip gives an unequal split."""
  item, group = d["columns"]["item"], d["columns"]["group"]
  data = d["data"].copy()
  ids = data[item].dropna().unique().tolist()
  n = len(ids)
  low = least_balanced(n) or 1
  treated = int(gen.pick(rng, [low - 1, n - low + 1, low, n - low, 0]))
  quota, names, k = {1: max(treated, 0), 0: n - max(treated, 0)}, [], 0
  while len(names) < n:
    name = f"renamed {k}"
    k += 1
    flip = ref.coinflip(d["design"].coinflip_salt, name)
    if quota[flip]:
      quota[flip] -= 1
      names.append(name)
  data[item] = data[item].map(dict(zip(ids, names)))
  data[group] = [ref.coinflip(d["design"].coinflip_salt, i) if isinstance(i, str) else 0 for i in data[item]]
  d["data"] = data


def missing_primary(rng, d):
  del rng
  rest = [m for m in d["metrics"] if m != d["design"].primary_metric]
  d["metrics"] = rest or ["unused"]
  if not rest:
    d["negative"] = ["unused"]


def disallowed_negative(rng, d):
  """The margin loses its permission to be negative."""
  del rng
  d["negative"] = []


def not_concluded(rng, d):
  del rng
  d["concluded"] = not d["concluded"]


HISTORICAL_FAULTS = [null_metric, null_unused, null_item, null_date, duplicate_row, missing_rows,
                     swapped_row, one_missing_per_date, new_item_once, shifted_date, missing_date,
                     week_gap, weeks_reversed, infinite, negative, infinite_unused]
EXPERIMENT_FAULTS = HISTORICAL_FAULTS + [
    wrong_item_count, late_start, early_end, other_start, flipped_item, swapped_pair, flipped_row, other_salt,
    all_flipped, ratio_mismatch, missing_primary, disallowed_negative, not_concluded]


def raised_check(error):
  found = re.match(r"Validation check '(.+?)' failed", str(error))
  return found.group(1) if found else None


def judge(ctx, rng, d, run, applied):
  """Runs the validation and monitors whether it raises, and which check.

  One of the failing checks is then asked on its own, by skipping the others.
  """
  bad, maybe = failing_checks(d)
  with core.captured() as printed:
    kind, error = core.outcome(run, d)
  about = dict(faults=applied, failing=sorted(bad), maybe=sorted(maybe))
  if kind == "error":
    ctx.check(isinstance(error, ValueError), f"raised {type(error).__name__}", error=str(error)[:300], **about)
    name = raised_check(error)
    ctx.check(name in bad | maybe, f"raised for check {name!r}, which does not fail",
              error=str(error)[:300], **about)
    ctx.event("rejected")
    ctx.event("rejected_" + name)
    if len(bad | maybe) > 1:
      alone = gen.pick(rng, sorted(bad))
      with core.captured():
        kind_alone, error = core.outcome(run, d, sorted((bad | maybe) - {alone}))
      ctx.event("asked_alone")
      ctx.check(kind_alone == "error" and isinstance(error, ValueError) and raised_check(error) == alone,
                f"{alone} fails but did not raise when the other failing checks were skipped",
                outcome=kind_alone, error=str(error)[:300], **about)
  else:
    ctx.check(error is None, "validation returned something", got=repr(error)[:100])
    ctx.check(not bad, "corrupted data was accepted", **about)
    ctx.event("accepted")
    if not maybe:
      ctx.check("WARNING" not in printed.getvalue(), "clean data gave a warning", printed=printed.getvalue()[:500])
  return bad, kind


# ------------------------------------------------------------------------ P06
P06 = PROPS["P06"] = core.Property(
    "P06",
    rule="Clean daily and weekly histories with 0 to 3 injected corruptions in the first, last or a "
    "random row. distinct = (injected faults, checks that then fail).",
    require=dict({"accepted": 60, "rejected": 200, "clean": 60, "large": 100, "large_rejected": 60,
                  "asked_alone": 50},
                 **{"rejected_" + c: 8 for c in HISTORICAL}))


@P06.scenario(quick=1200, thorough=25000)
def historical(ctx, rng):
  d = clean_historical(rng)
  applied = []
  for _ in range(int(gen.pick(rng, [0, 1, 1, 1, 2, 3]))):
    fault = gen.pick(rng, HISTORICAL_FAULTS)
    kind, _ = core.outcome(fault, rng, d)
    if kind == "ok":
      applied.append(fault.__name__)
  if not len(d["data"]):
    return
  if gen.chance(rng, 0.2):
    d["data"] = d["data"].set_axis(gen.row_labels(rng, len(d["data"])))
  before = gen.frame_fingerprint(d["data"])
  bad, kind = judge(ctx, rng, d, run_historical, applied)
  ctx.equal(gen.frame_fingerprint(d["data"]), before, "validation modified the data")
  if not applied:
    ctx.event("clean")
    ctx.check(kind == "ok" and not bad, "the oracle and the generator disagree about clean data")
  ctx.distinct(sorted(applied), sorted(bad))
  ctx.sample(faults=applied, failing=sorted(bad), outcome=kind, rows=len(d["data"]))


@P06.scenario(quick=160, thorough=1600)
def large_historical(ctx, rng):
  """One bad cell among thousands counts as much as among ten."""
  d = clean_historical(rng, large=True)
  fault = gen.pick(rng, [None] + HISTORICAL_FAULTS)
  if fault:
    fault(rng, d)
  bad, _ = judge(ctx, rng, d, run_historical, [fault and fault.__name__])
  ctx.event("large")
  ctx.event("large_rejected", bool(bad))
  ctx.distinct("large", fault and fault.__name__, sorted(bad))


@P06.scenario(quick=40, thorough=300)
def wrong_types(ctx, rng):
  d = clean_historical(rng)
  d["data"][d["columns"]["date"]] = d["data"][d["columns"]["date"]].astype(str)
  with core.captured():
    with ctx.raises(ValueError, "dates that are text"):
      run_historical(d)
  d = clean_historical(rng)
  d["data"][d["columns"]["week"]] = d["data"][d["columns"]["week"]] + 0.5
  with core.captured():
    with ctx.raises(ValueError, "fractional week ids"):
      run_historical(d)


# ------------------------------------------------------------------------ P07
P07 = PROPS["P07"] = core.Property(
    "P07",
    rule="Clean experiments (splits up to the most unequal allowed one, running or concluded, more "
    "dates than needed) with 0 to 3 injected corruptions in data, design or settings. distinct "
    "= (injected faults, checks that then fail).",
    require=dict({"accepted": 60, "rejected": 200, "clean": 60, "srm_boundary": 40, "large": 150,
                  "large_rejected": 100, "asked_alone": 50},
                 **{"rejected_" + c: 5 for c in EXPERIMENT}))


@P07.scenario(quick=1000, thorough=20000)
def experiment(ctx, rng):
  d = clean_experiment(rng)
  applied = []
  for _ in range(int(gen.pick(rng, [0, 1, 1, 1, 2, 3]))):
    fault = gen.pick(rng, EXPERIMENT_FAULTS)
    kind, _ = core.outcome(fault, rng, d)
    if kind == "ok":
      applied.append(fault.__name__)
  if not len(d["data"]):
    return
  if gen.chance(rng, 0.2):
    d["data"] = d["data"].set_axis(gen.row_labels(rng, len(d["data"])))
  before = gen.frame_fingerprint(d["data"])
  bad, kind = judge(ctx, rng, d, run_experiment, applied)
  ctx.equal(gen.frame_fingerprint(d["data"]), before, "validation modified the data")
  if not applied:
    ctx.event("clean")
    ctx.check(kind == "ok" and not bad, "the oracle and the generator disagree about clean data")
  ctx.distinct(sorted(applied), sorted(bad))
  ctx.sample(faults=applied, failing=sorted(bad), outcome=kind, rows=len(d["data"]))


@P07.scenario(quick=400, thorough=6000)
def one_fault_that_only_one_check_sees(ctx, rng):
  """Rare single corruptions, each with exactly one failing check."""
  d = clean_experiment(rng)
  fault = gen.pick(rng, EXPERIMENT_FAULTS)
  fault(rng, d)
  bad, maybe = failing_checks(d)
  if maybe or len(bad) != 1:
    return
  ctx.event("single_fault")
  ctx.distinct("single", fault.__name__, sorted(bad))
  with core.captured():
    kind, error = core.outcome(run_experiment, d)
  name = next(iter(bad))
  ctx.check(kind == "error" and isinstance(error, ValueError), f"{name} fails but the data was accepted",
            fault=fault.__name__, outcome=kind)
  ctx.equal(raised_check(error), name, "the wrong check was named", fault=fault.__name__)
  ctx.event("rejected_" + name)


@P07.scenario(quick=240, thorough=2400)
def large_experiment(ctx, rng):
  """One bad row or item among thousands counts as much as among fifty."""
  d = clean_experiment(rng, large=True)
  fault = gen.pick(rng, [None] + EXPERIMENT_FAULTS + 2 * [flipped_item, swapped_pair, flipped_row])
  if fault:
    fault(rng, d)
  bad, _ = judge(ctx, rng, d, run_experiment, [fault and fault.__name__])
  ctx.event("large")
  ctx.event("large_rejected", bool(bad))
  ctx.distinct("large", fault and fault.__name__, sorted(bad))


@P07.scenario(quick=120, thorough=2000)
def sample_ratio(ctx, rng):
  """The ratio check on its own, at the boundary of every size."""
  n = int(gen.pick(rng, [rng.integers(2, 20), rng.integers(5, 400), rng.integers(5, 400), rng.integers(400, 6000)]))
  low = least_balanced(n)
  for treated in {max(low - 1, 0), low, n - low, min(n, n - low + 1), 0, n, n // 2}:
    p = binomial_two_sided(treated, n)
    if abs(p / 0.001 - 1) < 1e-9:
      continue
    groups = np.array([1] * treated + [0] * (n - treated))
    repeat = rng.integers(1, 4, n)
    data = pd.DataFrame({"i": np.repeat(np.arange(n), repeat), "g": np.repeat(groups, repeat)})
    data = gen.shuffled(rng, data)
    with core.captured():
      kind, error = core.outcome(dp.validate_no_sample_ratio_mismatch, data, "i", "g")
      other = gen.pick(rng, [0.05, 0.01, 1e-6])
      if abs(p / other - 1) > 1e-9:
        again, _ = core.outcome(dp.validate_no_sample_ratio_mismatch, data, "i", "g", p_value_threshold=other)
        ctx.equal(again, "error" if p < other else "ok", "wrong verdict at another threshold", n=n, treated=treated,
                  p=p, threshold=other)
    ctx.event("srm_boundary")
    ctx.equal(kind, "error" if p < 0.001 else "ok", "wrong verdict of the sample ratio check",
              n=n, treated=treated, p=p, error=str(error)[:200])


@P07.scenario(quick=30, thorough=300)
def wrong_types(ctx, rng):
  d = clean_experiment(rng)
  d["data"][d["columns"]["date"]] = d["data"][d["columns"]["date"]].astype(str)
  with core.captured():
    with ctx.raises(ValueError, "dates that are text"):
      run_experiment(d)


# ------------------------------------------------------------------------ P08
P08 = PROPS["P08"] = core.Property(
    "P08",
    rule="Histories and experiments with 0 to 3 corruptions crossed with random subsets of skipped "
    "checks: none, exactly the failing ones, all but one of them, or random ones. distinct = "
    "(failing checks, skipped checks).",
    require={"all_failures_skipped": 100, "some_failure_not_skipped": 80, "warnings": 150,
             "unknown_names": 50, "passing_skips": 50, "pipelines": 20})


def _skips(rng, bad, names):
  kind = gen.pick(rng, ["failing", "all but one", "random", "random and failing", "all"])
  some = [n for n in names if gen.chance(rng, 0.4)]
  if kind == "failing":
    skip = sorted(bad)
  elif kind == "all but one":
    skip = [n for n in names if n not in bad or gen.chance(rng, 0.7)]
  elif kind == "random":
    skip = some
  elif kind == "all":
    skip = list(names)
  else:
    skip = sorted(set(some) | bad)
  skip = [str(n) for n in rng.permutation(np.array(skip, dtype=object))]
  if skip and gen.chance(rng, 0.1):
    skip.append(skip[0])
  return skip


@P08.scenario(quick=1400, thorough=20000)
def skipped_checks(ctx, rng):
  is_experiment = gen.chance(rng, 0.6)
  d = clean_experiment(rng) if is_experiment else clean_historical(rng)
  run = run_experiment if is_experiment else run_historical
  names = EXPERIMENT if is_experiment else HISTORICAL
  applied = []
  for _ in range(int(gen.pick(rng, [0, 1, 1, 2, 3]))):
    fault = gen.pick(rng, EXPERIMENT_FAULTS if is_experiment else HISTORICAL_FAULTS)
    if core.outcome(fault, rng, d)[0] == "ok":
      applied.append(fault.__name__)
  if not len(d["data"]):
    return
  if gen.chance(rng, 0.2):
    d["data"] = d["data"].set_axis(gen.row_labels(rng, len(d["data"])))
  bad, maybe = failing_checks(d)
  if maybe:
    return  # Only unambiguous failures, so that the set of warnings is exact.
  skip = _skips(rng, bad, names)
  with core.captured() as printed:
    kind, error = core.outcome(run, d, skip)
  warned = set(re.findall(r"WARNING: Validation check '(.+?)' failed, but was skipped", printed.getvalue()))
  about = dict(faults=applied, failing=sorted(bad), skipped=skip, warned=sorted(warned),
               outcome=kind, error=str(error)[:300])
  remaining = bad - set(skip)
  ctx.distinct(sorted(bad), sorted(skip))
  ctx.event("warnings", len(warned))
  ctx.check(warned <= bad & set(skip), "a warning about a check that does not fail or is not skipped", **about)
  if remaining:
    ctx.event("some_failure_not_skipped")
    ctx.check(kind == "error" and isinstance(error, ValueError), "a failure that is not skipped did not raise", **about)
    ctx.check(raised_check(error) in remaining, "raised for the wrong check", **about)
  else:
    ctx.check(kind == "ok", "raised although all failing checks are skipped", **about)
    ctx.equal(sorted(warned), sorted(bad), "not exactly the skipped failures were warned about", **about)
    if bad:
      ctx.event("all_failures_skipped")
    else:
      ctx.event("passing_skips")
  ctx.sample(**about)


@P08.scenario(quick=100, thorough=1500)
def unknown_names(ctx, rng):
  is_experiment = gen.chance(rng, 0.5)
  d = clean_experiment(rng) if is_experiment else clean_historical(rng)
  run = run_experiment if is_experiment else run_historical
  if gen.chance(rng, 0.5):
    core.outcome(gen.pick(rng, HISTORICAL_FAULTS), rng, d)
  known = EXPERIMENT if is_experiment else HISTORICAL
  unknown = gen.pick(rng, ["no_null", "NO_NULLS", "", "no nulls", "all", "no_nulls "])
  skip = [n for n in known if gen.chance(rng, 0.3)] + [unknown]
  rng.shuffle(skip)
  skip = [str(n) for n in skip]
  with core.captured() as printed:
    kind, error = core.outcome(run, d, skip)
  ctx.event("unknown_names")
  ctx.check(kind == "error" and isinstance(error, ValueError), "an unknown check name was accepted", skip=skip)
  ctx.check(raised_check(error) is None and "check '" not in printed.getvalue(),
            "a check ran before the unknown name was rejected", printed=printed.getvalue()[:300], error=str(error)[:200])


@P08.scenario(quick=60, thorough=800)
def pipelines_unchanged(ctx, rng):
  """Skipping checks that pass does not change the prepared data."""
  from checks import pipelines  # pylint: disable=g-import-not-at-top
  e = pipelines.experiment_inputs(rng, light=True, in_window=True)
  skip = [n for n in EXPERIMENT if gen.chance(rng, 0.5)]
  with core.captured():
    plain = dp.prepare_and_validate_experiment_data(**e["kwargs"])
    skipped = dp.prepare_and_validate_experiment_data(**e["kwargs"], skip_validation_checks=skip)
  ctx.event("pipelines")
  ctx.equal(gen.frame_fingerprint(plain), gen.frame_fingerprint(skipped), "skipping passing checks changed the data", skip=skip)
  # A salt from another design: rejected unless exactly that check is skipped.
  other = e["design"]
  saved, other.coinflip_salt = other.coinflip_salt, "another salt"
  kwargs = dict(e["kwargs"], design=other)
  with core.captured():
    with ctx.raises(ValueError, "assignments of another salt"):
      dp.prepare_and_validate_experiment_data(**kwargs, skip_validation_checks=[s for s in skip if s != "coinflip_salt_validation"])
    again = dp.prepare_and_validate_experiment_data(**kwargs, skip_validation_checks=skip + ["coinflip_salt_validation"])
  other.coinflip_salt = saved
  ctx.equal(gen.frame_fingerprint(plain), gen.frame_fingerprint(again), "skipping a failing check changed the data")

  data, columns, metric, *_ = pipelines._historical_raw(rng)  # pylint: disable=protected-access
  arguments = dict(item_id_column=columns[0], date_column=columns[1], primary_metric=metric,
                   primary_metric_column=columns[2])
  skip = [n for n in HISTORICAL if gen.chance(rng, 0.5)]
  with core.captured():
    plain = dp.prepare_and_validate_historical_data(data, rng=np.random.RandomState(0), **arguments)
    skipped = dp.prepare_and_validate_historical_data(
        data, rng=np.random.RandomState(0), skip_validation_checks=skip, **arguments)
    with ctx.raises(ValueError, "an unknown name in the historical pipeline"):
      dp.prepare_and_validate_historical_data(
          data, rng=np.random.RandomState(0), skip_validation_checks=skip + ["nope"], **arguments)
    negative_data = data.copy()
    negative_data.iloc[0, list(negative_data.columns).index(columns[2])] = -10**6
    dates = pd.to_datetime(negative_data[columns[1]])
    first_full_week = (dates.iloc[0] - dates.min()).days // 7
    complete = (dates.max() - dates.min()).days // 7 + ((dates.max() - dates.min()).days % 7 == 6)
    weekly = (dates.drop_duplicates().sort_values().diff().iloc[1:].dt.days == 7).all()
    if weekly or first_full_week < complete:
      with ctx.raises(ValueError, "negative history"):
        dp.prepare_and_validate_historical_data(negative_data, rng=np.random.RandomState(0), **arguments)
      dp.prepare_and_validate_historical_data(
          negative_data, rng=np.random.RandomState(0),
          skip_validation_checks=["all_metrics_are_non_negative"], **arguments)
  ctx.equal(gen.frame_fingerprint(plain), gen.frame_fingerprint(skipped), "skipping passing checks changed the history", skip=skip)
