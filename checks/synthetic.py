"""P11-P13: the synthetic data generator and the demo effects."""

import datetime as dt

import numpy as np
import pandas as pd

from feedx import data_preparation as dp

from mon import core
from mon import gen
from mon import ref

PROPS = {}
METRICS = ["impressions", "clicks", "conversions", "total_cost", "total_conversion_value"]


def settings(rng):
  """Random admissible parameters."""
  p = dict(
      impressions_average=float(10 ** rng.uniform(-1, 3)),
      ctr_average=float(rng.uniform(0.01, 0.9)),
      cpc_average=float(10 ** rng.uniform(-2, 2)),
      conversion_rate_average=float(rng.uniform(0.01, 0.9)),
      conversion_value_average=float(10 ** rng.uniform(-1, 3)))
  p["impressions_standard_deviation"] = p["impressions_average"] * float(rng.uniform(0.05, 3))
  for ratio in ("ctr", "conversion_rate"):
    m = p[ratio + "_average"]
    p[ratio + "_standard_deviation"] = float(rng.uniform(0.05, 0.95)) * (m * (1 - m)) ** 0.5
  for name in ("cpc", "conversion_value"):
    for level in ("item", "daily"):
      p[f"{name}_{level}_level_standard_deviation"] = p[name + "_average"] * float(rng.uniform(0.05, 2))
  return p


# ------------------------------------------------------------------------ P11
P11 = PROPS["P11"] = core.Property(
    "P11",
    rule="Random admissible parameters, spans (including no weeks before or after), start dates and "
    "random states; every inadmissible parameter. distinct = (items, weeks before and after, "
    "start date).",
    require={"datasets": 60, "rows": 20000, "no_clicks": 1000, "no_conversions": 1000, "clicks": 1000,
             "conversions": 300, "rejected": 100})


@P11.scenario(quick=120, thorough=2500)
def rows(ctx, rng):
  p = settings(rng)
  n_items = gen.size(rng, 1, 60, gen.pick(rng, [800, 12000]))
  before, after = (gen.size(rng, 0, 5, 160), gen.size(rng, 0, 6, 160)) if n_items < 60 else gen.pick(rng, [(1, 1), (0, 1), (1, 0)])
  start = gen.start_date(rng)
  seed = int(rng.integers(2**31))
  make = lambda s: dp.generate_synthetic_data(
      np.random.default_rng(s), n_items=n_items, weeks_before_start_date=before,
      weeks_after_start_date=after, start_date=start.isoformat(), **p)
  data = make(seed)
  ctx.event("datasets")
  ctx.event("rows", len(data))
  ctx.distinct(n_items, before, after, start)
  ctx.equal(sorted(data.columns), sorted(["date", "item_id"] + METRICS), "wrong columns")
  keys = list(zip(data["item_id"], [ref.as_date(str(d)) for d in data["date"]]))
  days = {start + dt.timedelta(days=d) for d in range(-7 * before, 7 * after)}
  items = {i for i, _ in keys}
  ctx.equal(len(keys), n_items * len(days), "wrong number of rows", before=before, after=after)
  ctx.check(len(set(keys)) == len(keys) and {d for _, d in keys} == days, "not one row per item and day of the weeks",
            start=str(start), before=before, after=after, first=str(min(d for _, d in keys)) if keys else None)
  if keys:
    ctx.equal(len(items), n_items, "wrong number of items")
  imp, clicks, conv = (data[m].to_numpy() for m in METRICS[:3])
  cost, value = data["total_cost"].to_numpy(), data["total_conversion_value"].to_numpy()
  for name, v in zip(METRICS[:3], (imp, clicks, conv)):
    ctx.check(np.all(np.asarray(v, dtype=float) % 1 == 0), f"{name} are not whole numbers")
  ctx.check(np.all(conv >= 0) and np.all(clicks >= conv) and np.all(imp >= clicks),
            "impressions >= clicks >= conversions >= 0 is broken")
  for name, v, of in (("cost", cost, clicks), ("value", value, conv)):
    ctx.check(np.all(np.isfinite(v)), f"{name} is not finite")
    ctx.check(np.all(v[of == 0] == 0), f"{name} without any clicks or conversions")
    ctx.check(np.all(v[of > 0] > 0), f"no {name} in spite of clicks or conversions")
  ctx.event("no_clicks", (clicks == 0).sum())
  ctx.event("clicks", (clicks > 0).sum())
  ctx.event("no_conversions", (conv == 0).sum())
  ctx.event("conversions", (conv > 0).sum())
  ctx.equal(gen.frame_fingerprint(make(seed)), gen.frame_fingerprint(data), "the same random state gives other data")
  if len(data) > 50 and imp.sum() > 100:
    ctx.check(gen.frame_fingerprint(make(seed + 1)) != gen.frame_fingerprint(data),
              "another random state gives the same data")
  ctx.sample(items=n_items, before=before, after=after, start=str(start), **p)


@P11.scenario(quick=60, thorough=800)
def rejected(ctx, rng):
  p = settings(rng)
  bad = {}
  for name in ("impressions", "cpc", "conversion_value"):
    bad[name + "_average"] = [0.0, -1.0]
  for name in ("ctr", "conversion_rate"):
    m = p[name + "_average"]
    limit = (m * (1 - m)) ** 0.5
    bad[name + "_average"] = [0.0, 1.0, -0.1, 1.5]
    bad[name + "_standard_deviation"] = [0.0, -0.1, limit * 1.0001, 1.0, 2.0]
  for name in p:
    if name.endswith("standard_deviation") and name not in bad:
      bad[name] = [0.0, -1.0]
  for name, values in bad.items():
    value = gen.pick(rng, values)
    ctx.event("rejected")
    with ctx.raises(ValueError, f"{name}={value} was accepted"):
      dp.generate_synthetic_data(np.random.default_rng(0), n_items=3, weeks_after_start_date=1, **dict(p, **{name: value}))
  with ctx.raises(ValueError, "a start date in another format was accepted"):
    dp.generate_synthetic_data(np.random.default_rng(0), n_items=3, start_date="01/02/2023")


# ------------------------------------------------------------------------ P12
P12 = PROPS["P12"] = core.Property(
    "P12",
    rule="Random admissible parameters. Averages are monitored in sparse data; item and daily level "
    "moments in data with so many impressions that the ratios are observed directly. A moment "
    "may be 6 standard errors away. distinct = parameter sets.",
    require={"moments": 300, "averages": 60, "datasets": 40, "wide_rates": 10},
    assumptions=["Standard errors of averages and standard deviations are estimated from the sample "
                 "(over items), whose distribution has at most moderate tails by the choice of settings."])


def _mean_z(x, want):
  return (x.mean() - want) / (x.std(ddof=1) / len(x) ** 0.5)


def _sd_z(x, want_var):
  """z-score of the variance of x, allowing for its kurtosis."""
  r = (x - x.mean()) ** 2
  return (r.sum() / (len(x) - 1) - want_var) / (r.std(ddof=1) / len(x) ** 0.5)


@P12.scenario(quick=48, thorough=800)
def item_and_daily_moments(ctx, rng):
  n_items, weeks = 3000, 2
  days = 7 * weeks
  u = rng.uniform
  p = dict(impressions_average=float(10 ** u(9, 11)), ctr_average=float(u(0.15, 0.85)),
           cpc_average=float(10 ** u(-2, 2)), conversion_rate_average=float(u(0.15, 0.85)),
           conversion_value_average=float(10 ** u(-1, 3)))
  cv = {}
  for name in ("impressions",):
    cv[name] = float(u(0.1, 0.6))
    p[name + "_standard_deviation"] = cv[name] * p[name + "_average"]
  for name in ("ctr", "conversion_rate"):
    m = p[name + "_average"]
    p[name + "_standard_deviation"] = float(u(0.1, 0.35)) * (m * (1 - m)) ** 0.5
  for name in ("cpc", "conversion_value"):
    for level in ("item", "daily"):
      p[f"{name}_{level}_level_standard_deviation"] = float(u(0.1, 0.3)) * p[name + "_average"]
  data = dp.generate_synthetic_data(np.random.default_rng(int(rng.integers(2**31))), n_items=n_items,
                                    weeks_before_start_date=1, weeks_after_start_date=weeks - 1, **p)
  ctx.event("datasets")
  ctx.distinct(sorted(p.items()))
  days_axis, items_axis = sorted(data["date"].unique()), data["item_id"].unique()
  m = {c: data.pivot(index="item_id", columns="date", values=c).loc[items_axis, days_axis].to_numpy(dtype=float)
       for c in METRICS}
  ok = (m["conversions"] > 1000).all(axis=1)
  ctx.check(ok.mean() > 0.98, "far fewer conversions than asked for", share=ok.mean(), settings=p)
  m = {c: v[ok] for c, v in m.items()} if not ok.all() else m
  series = {
      "impressions": (m["impressions"], p["impressions_average"], p["impressions_standard_deviation"], None),
      "ctr": (m["clicks"] / m["impressions"], p["ctr_average"], p["ctr_standard_deviation"], None),
      "conversion_rate": (m["conversions"] / m["clicks"], p["conversion_rate_average"],
                          p["conversion_rate_standard_deviation"], None)}
  for name, top, of in (("cpc", "total_cost", "clicks"), ("conversion_value", "total_conversion_value", "conversions")):
    series[name] = (m[top] / m[of], p[name + "_average"], p[name + "_item_level_standard_deviation"],
                    p[name + "_daily_level_standard_deviation"])
  n = len(m["clicks"])
  index = np.arange(n)
  for name, (x, mean, sd, daily) in series.items():
    per_item = x.mean(axis=1)
    ctx.event("moments", 4)
    z = _mean_z(per_item, mean)
    ctx.check(abs(z) < 6, f"the average of {name} is not the requested one", z=z, got=per_item.mean(), want=mean, settings=p)
    z = _sd_z(per_item, sd**2 + (daily**2 / days if daily else 0))
    ctx.check(abs(z) < 6, f"the standard deviation of {name} over items is not the requested one", z=z,
              got=per_item.std(), want=sd, settings=p)
    within = x.var(axis=1, ddof=1)
    if daily:
      z = _mean_z(within, daily**2)
      ctx.check(abs(z) < 6, f"the daily standard deviation of {name} is not the requested one", z=z,
                got=within.mean() ** 0.5, want=daily, settings=p)
      # Which holds for cheap and expensive items alike.
      # (Judged by other days, as the average and the variance of a day are related.)
      early = x[:, : days // 2].mean(axis=1)
      cheap = early < np.median(early)
      late = x[:, days // 2:].var(axis=1, ddof=1)
      for side in (cheap, ~cheap):
        z = _mean_z(late[side], daily**2)
        ctx.check(abs(z) < 7, f"the daily standard deviation of {name} depends on the item's average", z=z,
                  got=late[side].mean() ** 0.5, want=daily, settings=p)
    else:
      ctx.check(within.mean() < 0.001 * sd**2, f"{name} varies from day to day", got=within.mean() ** 0.5)
    ranks = per_item.argsort().argsort()
    r = np.corrcoef(index, ranks)[0, 1] * n**0.5
    ctx.check(abs(r) < 6, f"{name} depends on the order of the items", z=r)
    daily_means = (x - per_item[:, None])
    se = daily_means.std(axis=0, ddof=1) / n**0.5
    z = daily_means.mean(axis=0) / np.where(se > 0, se, np.inf)
    ctx.check(np.abs(z).max() < 6.5, f"{name} depends on the date", z=z)
  ctx.sample(settings=p, items=n)


@P12.scenario(quick=24, thorough=400)
def very_different_rates(ctx, rng):
  """Rates that are near 0 for some items and near 1 for others."""
  n_items = 12000
  wide = gen.pick(rng, ["ctr", "conversion_rate"])
  p = dict(impressions_average=1e11, impressions_standard_deviation=1e10, ctr_average=0.5,
           ctr_standard_deviation=0.05, conversion_rate_average=0.5, conversion_rate_standard_deviation=0.05)
  m = float(gen.pick(rng, [rng.uniform(0.2, 0.8), rng.uniform(0.03, 0.2), rng.uniform(0.8, 0.97)]))
  p[wide + "_average"] = m
  p[wide + "_standard_deviation"] = float(rng.uniform(0.5, 0.95)) * (m * (1 - m)) ** 0.5
  data = dp.generate_synthetic_data(np.random.default_rng(int(rng.integers(2**31))), n_items=n_items,
                                    weeks_before_start_date=0, weeks_after_start_date=1, **p)
  ctx.event("datasets")
  ctx.event("wide_rates")
  ctx.distinct(sorted(p.items()))
  totals = data.groupby("item_id")[list(METRICS)].sum()
  of = {"ctr": ("clicks", "impressions"), "conversion_rate": ("conversions", "clicks")}[wide]
  rate = (totals[of[0]] / totals[of[1]]).to_numpy(dtype=float)
  z = _mean_z(rate, m)
  ctx.check(abs(z) < 6, f"the average of {wide} is not the requested one", z=z, got=rate.mean(), want=m, settings=p)
  sd = p[wide + "_standard_deviation"]
  z = _sd_z(rate, sd**2)
  ctx.check(abs(z) < 6, f"the standard deviation of {wide} is not the requested one", z=z, got=rate.std(), want=sd, settings=p)


@P12.scenario(quick=48, thorough=800)
def averages_of_sparse_data(ctx, rng):
  p = settings(rng)
  n_items = 3000
  for name in list(p):
    if name.endswith("standard_deviation") and "ctr" not in name and "rate" not in name:
      base = next(k for k in ("impressions", "cpc", "conversion_value") if name.startswith(k))
      p[name] = p[base + "_average"] * float(rng.uniform(0.1, 0.8))
  for name in ("ctr", "conversion_rate"):
    m = p[name + "_average"]
    p[name + "_standard_deviation"] = float(rng.uniform(0.1, 0.6)) * (m * (1 - m)) ** 0.5
  p["impressions_average"] = max(p["impressions_average"], 2.0)
  p["impressions_standard_deviation"] = p["impressions_average"] * float(rng.uniform(0.1, 1))
  data = dp.generate_synthetic_data(np.random.default_rng(int(rng.integers(2**31))), n_items=n_items,
                                    weeks_before_start_date=1, weeks_after_start_date=1, **p)
  ctx.event("datasets")
  ctx.distinct(sorted(p.items()))
  imp = p["impressions_average"]
  want = {"impressions": imp, "clicks": imp * p["ctr_average"]}
  want["conversions"] = want["clicks"] * p["conversion_rate_average"]
  want["total_cost"] = want["clicks"] * p["cpc_average"]
  want["total_conversion_value"] = want["conversions"] * p["conversion_value_average"]
  for c in METRICS:
    per_item = data.groupby("item_id")[c].mean().to_numpy(dtype=float)
    if (per_item > 0).sum() < 500:
      continue
    z = _mean_z(per_item, want[c])
    ctx.event("averages")
    ctx.check(abs(z) < 7, f"the average of {c} is not the requested one", z=z, got=per_item.mean(), want=want[c], settings=p)
    early = data["date"] < "2023-01-01"
    a = data[early].groupby("item_id")[c].mean().to_numpy(dtype=float)
    b = data[~early].groupby("item_id")[c].mean().to_numpy(dtype=float)
    d = b - a
    if d.std() > 0:
      ctx.check(abs(_mean_z(d, 0)) < 7, f"{c} changes at the start date", z=_mean_z(d, 0))
  # Impressions are Poisson counts: their daily variance is their average.
  x = data.pivot(index="item_id", columns="date", values="impressions").to_numpy(dtype=float)
  excess = x.var(axis=1, ddof=1) - x.mean(axis=1)
  ctx.check(abs(_mean_z(excess, 0)) < 7, "impressions do not vary from day to day like counts", z=_mean_z(excess, 0))


# ------------------------------------------------------------------------ P13
P13 = PROPS["P13"] = core.Property(
    "P13",
    rule="Labelled and assigned experiment data (regular and crossover, any column names, integer or "
    "float metrics, unlabelled rows, shuffled) and five different effects of either sign. distinct "
    "= (crossover, effects, rows).",
    require={"treated_cells": 2000, "untouched_cells": 2000, "crossover": 40, "regular": 40})


@P13.scenario(quick=200, thorough=4000)
def effects(ctx, rng):
  crossover = gen.chance(rng, 0.5)
  n = gen.size(rng, 8, 120, 4000)
  labels = ["pretest", None] + (["washout_1", "test_1", "washout_2", "test_2"] if crossover else ["test"])
  periods = [gen.pick(rng, labels) for _ in range(n)]
  if crossover:
    periods[int(rng.integers(n))] = "test_1"
  period_column, arm_column = gen.pick(rng, [("time_period", "treatment_assignment"), ("phase", "arm")])
  arms = rng.integers(0, 2, n)
  data = pd.DataFrame({"item_id": gen.item_ids(rng, n), period_column: periods, arm_column: arms,
                       "bystander": rng.normal(size=n)})
  for m in METRICS:
    data[m] = gen.pick(rng, [rng.poisson(3, n), rng.poisson(3, n).astype(float), rng.gamma(1, 3, n)])
  if gen.chance(rng, 0.4):
    data.index = gen.row_labels(rng, n)
  values = {m: float(rng.uniform(-1, 3)) for m in METRICS}
  if gen.chance(rng, 0.2):
    values[gen.pick(rng, METRICS)] = 0.0
  defaults = gen.chance(rng, 0.2)
  before = gen.frame_fingerprint(data)
  out = dp.add_relative_effects_to_synthetic_data_for_demo(
      data, time_period_column=period_column, treatment_assignment_column=arm_column,
      **({} if defaults else {m + "_relative_effect": v for m, v in values.items()}))
  if defaults:
    values = {m: 0.1 if m == "impressions" else 0.2 for m in METRICS}
  ctx.event("crossover" if crossover else "regular")
  ctx.distinct(crossover, n, sorted(values.items()))
  ctx.equal(gen.frame_fingerprint(data), before, "the caller's data was modified")
  ctx.equal(list(out.columns), list(data.columns), "columns changed")
  ctx.equal(out.index.tolist(), data.index.tolist(), "rows were reordered")
  treated = []
  for period, arm in zip(periods, arms):
    if period in ("test", "test_1", "washout_1"):
      treated.append(arm == 1)
    elif period in ("test_2", "washout_2"):
      treated.append(arm == 0)
    else:
      treated.append(False)
  for column in data.columns:
    raw, got = data[column].tolist(), out[column].tolist()
    for k in range(n):
      if column in METRICS and treated[k]:
        ctx.event("treated_cells")
        ctx.close(got[k], raw[k] * (1 + values[column]), f"wrong effect on {column}", rtol=1e-12,
                  period=periods[k], arm=int(arms[k]))
      else:
        ctx.event("untouched_cells")
        ctx.check(got[k] == raw[k] or (got[k] is raw[k]), f"{column} of an untreated row changed", got=got[k],
                  want=raw[k], period=periods[k], arm=int(arms[k]))
  ctx.sample(crossover=crossover, rows=n, effects=values, treated=sum(treated))
