"""V01-V03: what the plots draw, read back from the artists of the returned axes."""

import math

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # pylint: disable=g-import-not-at-top,g-bad-import-order
from matplotlib import lines as mlines
from matplotlib import patches as mpatches
import numpy as np
import pandas as pd
from scipy import stats

from feedx import plotting

from checks import simulations
from mon import core
from mon import gen
from mon import ref

PROPS = {}


def drawing(fn):
  """Runs a scenario and closes its figures."""
  def inner(ctx, rng):
    try:
      fn(ctx, rng)
    finally:
      plt.close("all")
  inner.__name__ = fn.__name__
  return inner


def vertical_lines(ax):
  """{x: line} of the lines that mark one x."""
  out = []
  for line in ax.lines:
    x = np.asarray(line.get_xdata(orig=False), dtype=float)
    y = np.asarray(line.get_ydata(orig=False), dtype=float)
    if len(x) == 2 and x[0] == x[1] and sorted(y) == [0, 1] and line.get_transform() != ax.transData:
      out.append((float(x[0]), line))
  return out


def curves(ax):
  marks = {id(line) for _, line in vertical_lines(ax)}
  return [line for line in ax.lines if id(line) not in marks and len(line.get_xdata())]


# ------------------------------------------------------------------------ V01
V01 = PROPS["V01"] = core.Property(
    "V01",
    rule="Historical data with ties, zeros, missing and shuffled rows, text and date weeks and any column "
    "names; recorded results of 2 to 400 simulations. Read from the artists. distinct = (items, weeks, "
    "kind) and (simulations, designs).",
    require={"large": 2, "many_simulations": 4, "histories": 60, "weeks": 400, "items": 1500, "ties": 20, "missing_rows": 15, "deep_dives": 50,
             "bins": 1000, "effects": 5000, "rejected": 10})


@V01.scenario(quick=96, thorough=1500)
@drawing
def histories(ctx, rng):
  n, weeks = gen.size(rng, 2, 120, 4000, 0.05), gen.size(rng, 1, 14, 80, 0.05)
  if gen.chance(rng, 0.03):
    n, weeks = gen.pick(rng, [(int(rng.integers(10001, 30000)), int(rng.integers(1, 4))),
                              (int(rng.integers(2, 60)), int(rng.integers(105, 300)))])
    ctx.event("large")
  kind = gen.pick(rng, ["continuous", "counts", "sparse"])
  values = gen.weekly_metric(rng, n, weeks, kind) * 10.0 ** gen.pick(rng, [0, 0, -4, 5])
  if gen.chance(rng, 0.3):
    values[: n // 3] = values[0]
  if values.sum() == 0:
    values[0, 0] = 1.0
  if gen.chance(rng, 0.15):
    # Some items lose money.
    losers = rng.random(n) < 0.2
    values[losers] *= -0.1
    values[0] = np.abs(values).max() * n
    ctx.event("negative_items", int(losers.sum()))
  ids = gen.item_ids(rng, n)
  start = pd.Timestamp(gen.start_date(rng))
  names = dict(metric=gen.pick(rng, ["clicks", "total_cost", "m"]), item=gen.pick(rng, ["item_id", "offer"]),
               week=gen.pick(rng, ["week_start", "w"]))
  dates = [start + pd.Timedelta(weeks=w) for w in range(weeks)]
  if gen.chance(rng, 0.3):
    dates = [d.strftime("%Y-%m-%d") for d in dates]
  present = np.ones((n, weeks), dtype=bool)
  if gen.chance(rng, 0.3):
    present = rng.random((n, weeks)) < 0.8
    present[np.arange(n), rng.integers(0, weeks, n)] = True
    present[rng.integers(0, n, weeks), np.arange(weeks)] = True
    values[np.argmax(present[:, 0]), 0] += 1.0
    ctx.event("missing_rows")
  cells = np.argwhere(present)
  cells = cells[rng.permutation(len(cells))]
  data = pd.DataFrame({names["item"]: np.array(ids, dtype=object)[cells[:, 0]],
                       names["week"]: [dates[w] for w in cells[:, 1]],
                       names["metric"]: values[cells[:, 0], cells[:, 1]], "other": 1.0})
  data = gen.maybe_categorical(rng, data, names["item"])
  if gen.chance(rng, 0.3):
    data.index = rng.integers(0, 5, len(data))
  axs = plotting.plot_metric_history(data, names["metric"], item_id_column=names["item"],
                                     week_start_column_name=names["week"])
  ctx.event("histories")
  ctx.event("weeks", weeks)
  ctx.event("items", n)
  ctx.distinct(n, weeks, kind, len(cells))
  ctx.equal(len(axs), 3, "not three plots")

  line = curves(axs[0])
  ctx.equal(len(line), 1, "not one line of totals")
  x, y = line[0].get_xdata(orig=True), line[0].get_ydata()
  totals = np.where(present, values, 0.0).sum(axis=0)
  ctx.equal([str(pd.Timestamp(v)) for v in x], [str(pd.Timestamp(d)) for d in dates], "not every week once, in order")
  ctx.close(y, totals, "wrong weekly totals", rtol=1e-9)

  means = np.where(present, values, 0.0).sum(axis=1) / present.sum(axis=1)
  ordered = np.sort(means)
  line = curves(axs[1])
  ctx.equal(len(line), 1, "not one distribution")
  x, y = np.asarray(line[0].get_xdata(), float), np.asarray(line[0].get_ydata(), float)
  ctx.close(np.sort(x), ordered, "the distribution does not have every item once", rtol=1e-9)
  ctx.event("ties", len(np.unique(np.round(ordered, 12))) < n)
  gaps = 1e-7 * max(abs(ordered))
  for value in ordered[rng.permutation(n)[:12]]:
    near = np.abs(x - value) <= gaps
    share = (ordered >= value - gaps).mean()
    ctx.close(y[near].max(), share, "wrong share of items with at least the value", value=value)
    ctx.close(y[near].min(), (ordered > value + gaps).mean() + 1 / n, "wrong share of items at ties", value=value)
    k = round(share * n)
    label = axs[1].yaxis.get_major_formatter()(share, None)
    shown = label.rpartition("(")[2].rstrip(")").replace(",", "")
    ctx.equal(shown, str(k), "the tick label has the wrong number of items", label=label)

  line = curves(axs[2])
  ctx.equal(len(line), 1, "not one lorenz curve")
  x, y = np.asarray(line[0].get_xdata(), float), np.asarray(line[0].get_ydata(), float)
  order = np.argsort(x)
  ctx.close(x[order][-n:], np.arange(1, n + 1) / n, "the lorenz curve does not have every item once")
  total = ordered.sum()
  want = np.array([ordered[n - k:].sum() / total for k in range(1, n + 1)])
  ctx.close(y[order][-n:], want, "wrong share of the metric captured by the top items", rtol=1e-8)
  ctx.sample(items=n, weeks=weeks, kind=kind, rows=len(data))


def bins_of(ax, label=None):
  """[(left, right, height)] of the histogram drawn, whichever way it is drawn."""
  out = []
  for patch in ax.patches:
    if label is not None and label not in str(patch.get_label()):
      continue
    if isinstance(patch, mpatches.Rectangle):
      out.append((patch.get_x(), patch.get_x() + patch.get_width(), patch.get_height()))
    else:
      xy = patch.get_xy()
      for (x0, y0), (x1, y1) in zip(xy[:-1], xy[1:]):
        if y0 == y1 and x1 > x0 and y0 > 0:
          out.append((x0, x1, y0))
  return [b for b in out if b[2] > 0]


def judge_histogram(ctx, bins, values, what):
  values = np.sort(np.asarray(values, float))
  ctx.event("bins", len(bins))
  ctx.event("effects", len(values))
  ctx.check(abs(sum(h for _, _, h in bins) - len(values)) < 1e-6, f"{what}: not every simulation is counted once",
            counted=sum(h for _, _, h in bins), simulations=len(values))
  slack = 1e-9 * max(1e-300, values[-1] - values[0])
  for left, right, height in bins:
    most = ((values >= left - slack) & (values <= right + slack)).sum()
    least = ((values > left + slack) & (values < right - slack)).sum()
    ctx.check(least <= height <= most, f"{what}: a bar has the wrong height", left=left, right=right, height=height,
              between=(int(least), int(most)))


@V01.scenario(quick=80, thorough=1500)
@drawing
def deep_dives(ctx, rng):
  a = simulations.recorded(rng)
  many = gen.chance(rng, 0.06)
  ctx.event("many_simulations", many)
  for name in ("aa", "ab"):
    # Another centre and spread each, so that mixed up results show.
    results = getattr(a, f"{name}_simulation_results").copy()
    if many:
      results = results.sample(n=int(rng.integers(1001, 20000)), replace=True, random_state=int(rng.integers(2**31)), ignore_index=True)
      results["absolute_difference"] += results["absolute_difference"].std() * rng.normal(size=len(results))
    results["p_value"] = rng.random(len(results)) ** (1 if name == "aa" else 3)
    results["is_significant"] = results["p_value"] < a.design.alpha
    setattr(a, f"{name}_simulation_results", results)
  axs = plotting.plot_deep_dive(a)
  ctx.event("deep_dives")
  ctx.distinct(len(a.aa_simulation_results), a.design.design_id)
  judge_histogram(ctx, bins_of(axs[0], "A/A"), a.aa_simulation_results["absolute_difference"], "A/A effects")
  judge_histogram(ctx, bins_of(axs[0], "A/B"), a.ab_simulation_results["absolute_difference"], "A/B effects")
  judge_histogram(ctx, bins_of(axs[1]), a.aa_simulation_results["p_value"], "A/A p-values")
  judge_histogram(ctx, bins_of(axs[2]), a.ab_simulation_results["p_value"], "A/B p-values")
  marks = sorted(x for x, _ in vertical_lines(axs[0]))
  ctx.close(marks, sorted([0.0, a.minimum_detectable_effect]), "zero and the effect are not marked")
  colours = {}
  for patch in axs[0].patches:
    for arm in ("A/A", "A/B"):
      if arm in str(patch.get_label()):
        colours[arm] = matplotlib.colors.to_rgb(patch.get_facecolor())
  for x, line in vertical_lines(axs[0]):
    arm = "A/A" if x == 0 else "A/B"
    ctx.close(matplotlib.colors.to_rgb(line.get_color()), colours[arm], "a mark has the colour of the other simulations")
  ctx.sample(simulations=len(a.aa_simulation_results), mde=a.minimum_detectable_effect)


@V01.scenario(quick=16, thorough=100)
@drawing
def unvalidated(ctx, rng):
  a = simulations.recorded(rng, validated_=False, estimated_=gen.chance(rng, 0.7))
  ctx.event("rejected")
  with ctx.raises(ValueError, "a deep dive before the validation was drawn"):
    plotting.plot_deep_dive(a)


# ------------------------------------------------------------------------ V02
V02 = PROPS["V02"] = core.Property(
    "V02",
    rule="Daily and weekly experiments of regular and crossover designs, missing dates and rows, dates "
    "outside the windows, with and without CUPED, any column names and row order. Read from the artists. "
    "distinct = (design, frequency, start, adjusted).",
    require={"plots": 60, "dates": 1200, "crossover": 25, "regular": 25, "washout": 12, "adjusted": 20, "raw": 20,
             "daily": 20, "weekly": 20, "missing_dates": 10, "outside": 15, "rejected": 8, "unusual_values": 15})


@V02.scenario(quick=96, thorough=1500)
@drawing
def over_time(ctx, rng):
  adjusted = gen.chance(rng, 0.5)
  design = gen.design(rng, max_runtime=6, max_pretest=3, **({"pretest": int(rng.integers(1, 4))} if adjusted else {}))
  weekly = gen.chance(rng, 0.5)
  before, after = (int(rng.integers(0, 3)), int(rng.integers(0, 3))) if gen.chance(rng, 0.5) else (0, 0)
  ctx.event("outside", before + after > 0)
  n = gen.size(rng, 8, 60, 1200)
  weeks = list(range(-design.pretest_weeks - before, design.runtime_weeks + after))
  first = pd.Timestamp(gen.start_date(rng))
  days = [(w, d) for w in weeks for d in ([0] if weekly else range(7))]
  dates = [first + pd.Timedelta(days=7 * w + d) for w, d in days]
  labels = [ref.period_label(w, 0, design) for w, _ in days]
  values = gen.weekly_metric(rng, n, len(days), gen.pick(rng, ["continuous", "continuous", "counts", "sparse"]))
  if gen.chance(rng, 0.2):
    # Hardly anything happens, or some items lose money.
    if gen.chance(rng, 0.5):
      values = values * (rng.random(values.shape) < 0.04)
    else:
      values[rng.random(n) < 0.3] *= -1.0
    ctx.event("unusual_values")
  arms = rng.permutation((np.arange(n) % 2) if gen.chance(rng, 0.5) else (np.arange(n) < max(2, n // 4)).astype(int))
  present = np.ones((n, len(days)), dtype=bool)
  if gen.chance(rng, 0.3):
    # Some items miss some dates.
    present = rng.random((n, len(days))) < 0.85
    for arm in (0, 1):
      present[np.flatnonzero(arms == arm)[:2]] = True
    present[:, labels.index("pretest") if "pretest" in labels else 0] = True
  if gen.chance(rng, 0.3) and not weekly:
    # Some dates are missing for all, but never the first or the last of a period.
    for k in range(1, len(days) - 1):
      if labels[k - 1] == labels[k] == labels[k + 1] and gen.chance(rng, 0.15):
        present[:, k] = False
        ctx.event("missing_dates")
  names = dict(metric=gen.pick(rng, ["clicks", "total_cost", "my metric"]), item=gen.pick(rng, ["item_id", "offer"]),
               period=gen.pick(rng, ["time_period", "phase"]), arm=gen.pick(rng, ["treatment_assignment", "group"]),
               date=gen.pick(rng, ["date", "week_start", "day"]))
  ids = np.array(gen.item_ids(rng, n), dtype=object)
  cells = np.argwhere(present)
  cells = cells[rng.permutation(len(cells))]
  data = pd.DataFrame({
      names["item"]: ids[cells[:, 0]], names["date"]: [dates[k] for k in cells[:, 1]],
      names["metric"]: values[cells[:, 0], cells[:, 1]], names["arm"]: arms[cells[:, 0]],
      names["period"]: np.array(labels, dtype=object)[cells[:, 1]], "other": rng.normal(size=len(cells))})
  data = gen.maybe_categorical(rng, data, names["item"])
  if gen.chance(rng, 0.4):
    data.index = rng.permutation(len(data)) if gen.chance(rng, 0.6) else rng.integers(0, 9, len(data))
  options = {} if adjusted and gen.chance(rng, 0.5) else {"apply_cuped_adjustment": adjusted}
  _, axs = plotting.plot_metric_over_time(
      data, metric_column=names["metric"], item_id_column=names["item"], time_period_column=names["period"],
      treatment_assignment_column=names["arm"], date_column=names["date"], design=design, **options)
  ctx.event("plots")
  ctx.event("crossover" if design.is_crossover else "regular")
  ctx.event("washout", bool(design.is_crossover and design.crossover_washout_weeks))
  ctx.event("adjusted" if adjusted else "raw")
  ctx.event("weekly" if weekly else "daily")
  ctx.distinct(design.design_id, weekly, first, adjusted)

  shown = [k for k in range(len(days)) if present[:, k].any()]
  ctx.event("dates", len(shown))
  place = lambda ax, when: float(ax.xaxis.convert_units(when))
  means, errors = {0: [], 1: []}, {0: [], 1: []}
  covariate = None
  if adjusted:
    pretest = np.array([l == "pretest" for l in labels])
    covariate = np.where(present[:, pretest], values[:, pretest], 0.0).sum(axis=1)
  for k in shown:
    who = np.flatnonzero(present[:, k])
    y = values[who, k]
    if adjusted:
      y = ref.cuped(y, covariate[who], 0.0)
    for arm in (0, 1):
      of_arm = y[arms[who] == arm]
      means[arm].append(of_arm.mean())
      errors[arm].append(np.sqrt(((of_arm - of_arm.mean()) ** 2).mean() / len(of_arm)))
  means, errors = {a: np.array(v) for a, v in means.items()}, {a: np.array(v) for a, v in errors.items()}
  noise = 1e-7 * float(np.abs(values).max())
  x = np.array([place(axs[0], dates[k]) for k in shown])
  lines = {line.get_label(): line for line in curves(axs[0])}
  for arm, name in ((0, "Control"), (1, "Treatment")):
    ctx.check(name in lines, "a group is not drawn", drawn=list(lines))
    got = lines[name]
    ctx.close(np.asarray(got.get_xdata(orig=False), float), x, f"{name}: not every date once, in order")
    ctx.close(np.asarray(got.get_ydata(orig=False), float), means[arm], f"{name}: wrong averages", rtol=1e-6, atol=noise)
  delta = means[1] - means[0]
  half = stats.norm.isf(design.alpha / 2) * np.sqrt(errors[0] ** 2 + errors[1] ** 2)
  line = [l for l in curves(axs[1]) if l.get_label() == "Treatment - Control"]
  ctx.equal(len(line), 1, "the difference is not drawn once")
  x = np.array([place(axs[1], dates[k]) for k in shown])
  ctx.close(np.asarray(line[0].get_xdata(orig=False), float), x, "difference: not every date once, in order")
  ctx.close(np.asarray(line[0].get_ydata(orig=False), float), delta, "wrong differences", rtol=1e-6, atol=noise)
  vertices = np.concatenate([p.vertices for c in axs[1].collections for p in c.get_paths()])
  low = np.array([vertices[np.abs(vertices[:, 0] - v) < 1e-6, 1].min() for v in x])
  high = np.array([vertices[np.abs(vertices[:, 0] - v) < 1e-6, 1].max() for v in x])
  # At the ends of the area its outline may touch no other values than the bounds.
  ctx.close(low, delta - half, "wrong lower bounds", rtol=1e-6, atol=noise)
  ctx.close(high, delta + half, "wrong upper bounds", rtol=1e-6, atol=noise)
  ctx.check(any(f"{1 - design.alpha:.0%}" in str(c.get_label()) for c in axs[1].collections),
            "the interval has the wrong label")

  first_of = lambda *periods: next((dates[k] for k in range(len(days)) if labels[k] in periods), None)
  begin = first_of("test", "washout_1", "test_1")
  marks = [(begin, "-")]
  washouts = []
  if design.is_crossover:
    crossover = first_of("washout_2", "test_2")
    marks.append((crossover, "--"))
    if design.crossover_washout_weeks:
      washouts = [(begin, first_of("test_1")), (crossover, first_of("test_2"))]
  end = begin + pd.Timedelta(weeks=design.runtime_weeks)
  for ax in axs:
    got = sorted((v, line.get_linestyle()) for v, line in vertical_lines(ax))
    want = sorted((place(ax, when), style) for when, style in marks)
    ctx.check(len(got) == len(want) and all(abs(g[0] - w[0]) < 1e-6 and g[1] == w[1] for g, w in zip(got, want)),
              "the start or the crossover is not marked where the data has it", got=got, want=want, design=str(design))
    spans = []
    for patch in ax.patches:
      box = patch.get_path().transformed(patch.get_patch_transform()).get_extents()
      if box.width > 1e-9:
        spans.append((box.x0, box.x1))
    want = [(place(ax, l), place(ax, r)) for l, r in washouts]
    ctx.check(len(spans) == len(want) and np.allclose(sorted(spans), sorted(want), rtol=0, atol=1e-6),
              "the washouts are not marked where the data has them", got=spans, want=want, design=str(design))
    ctx.close(ax.get_xlim(), [place(ax, begin - pd.Timedelta(weeks=design.pretest_weeks)), place(ax, end)],
              "the plot does not show the pretest and runtime weeks")
  ctx.sample(crossover=design.is_crossover, weekly=weekly, adjusted=adjusted, dates=len(shown), items=n)


@V02.scenario(quick=16, thorough=100)
@drawing
def without_pretest(ctx, rng):
  design = gen.design(rng, pretest=0)
  dates = pd.date_range("2024-01-01", periods=design.runtime_weeks, freq="7D")
  data = pd.DataFrame([(f"i{i}", d, i % 2, float(rng.random()), ref.period_label(w, 0, design))
                       for w, d in enumerate(dates) for i in range(6)], columns=["i", "d", "a", "m", "t"])
  ctx.event("rejected")
  with ctx.raises(ValueError, "CUPED without pretest data was accepted"):
    plotting.plot_metric_over_time(data, metric_column="m", item_id_column="i", time_period_column="t",
                                   treatment_assignment_column="a", date_column="d", design=design)


# ------------------------------------------------------------------------ V03
V03 = PROPS["V03"] = core.Property(
    "V03",
    rule="Result tables of 1 to 9 metrics in any order with two-sided, one-sided, unbounded and missing "
    "results, any column names, the primary metric in any case and position. Read from the artists. "
    "distinct = (metrics, primary position, sides).",
    require={"plots": 100, "metrics": 400, "significant": 60, "insignificant": 150, "unbounded_low": 60,
             "unbounded_high": 60, "missing": 10, "only_primary": 5, "rejected": 12})

LEFT = {mlines.CARETLEFT, mlines.CARETLEFTBASE, "<"}
RIGHT = {mlines.CARETRIGHT, mlines.CARETRIGHTBASE, ">"}


def solid(collection_or_line):
  style = collection_or_line.get_linestyle()
  if isinstance(style, str):
    return style == "-"
  return all(pattern is None for _, pattern in style)


def read_effects(ax):
  """{label: dict(points, segments [(x0, x1, solid)], arrows {side: [x]})}."""
  labels = {round(float(y), 6): t.get_text() for y, t in zip(ax.get_yticks(), ax.get_yticklabels())}
  out = {t: dict(points=[], segments=[], left=[], right=[]) for t in labels.values()}
  stray = []
  for container in ax.containers:
    points, caps, bars = container
    for line, caption in [(points, False)] + [(c, True) for c in caps]:
      for x, y in zip(np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)):
        label = labels.get(round(float(y), 6))
        if label is None:
          stray.append((x, y))
        elif not caption:
          out[label]["points"].append(float(x))
        elif line.get_marker() in LEFT:
          out[label]["left"].append(float(x))
        elif line.get_marker() in RIGHT:
          out[label]["right"].append(float(x))
    for bar in bars:
      for (x0, y0), (x1, y1) in bar.get_segments():
        label = labels.get(round(float(y0), 6))
        if label is None or y0 != y1:
          stray.append((x0, y0))
        else:
          out[label]["segments"].append((min(x0, x1), max(x0, x1), solid(bar)))
  return out, stray


@V03.scenario(quick=160, thorough=3000)
@drawing
def effects(ctx, rng):
  n = int(gen.pick(rng, [1, 2, 3, 5, int(rng.integers(1, 10))]))
  design = gen.design(rng, metric=gen.pick(rng, ["clicks", "total_cost", "My Metric"]))
  others = ["impressions", "CTR", "conversions", "a b", "Z", "métrique", "revenue", "10", "9",
            f"Total {design.primary_metric}", f"{design.primary_metric} 2", f"CTR ({design.primary_metric})"]
  primary = gen.pick(rng, [str, str.upper, str.title])(design.primary_metric)
  metrics = [primary] + [others[i] for i in rng.permutation(len(others))[: n - 1]]
  order = rng.permutation(n)
  metrics = [metrics[i] for i in order]
  rows = []
  side = gen.pick(rng, ["two-sided", "greater", "less", "mixed", "unbounded"])
  for _ in metrics:
    value = float(rng.normal() * 10.0 ** rng.uniform(-3, 0.5))
    low, high = value - abs(rng.normal()) * 0.2, value + abs(rng.normal()) * 0.2
    s = gen.pick(rng, ["two-sided", "greater", "less", "unbounded", "missing"]) if side == "mixed" else side
    if s in ("greater", "unbounded"):
      high = math.inf
    if s in ("less", "unbounded"):
      low = -math.inf
    if s == "missing":
      value = low = high = math.nan
    rows.append((value, low, high, gen.chance(rng, 0.4)))
  columns = ["relative_difference", "relative_difference_lower_bound", "relative_difference_upper_bound", "is_significant"]
  options = {}
  if gen.chance(rng, 0.4):
    columns = ["rel", "lo", "hi", "sig"]
    options = dict(relative_difference_column_name="rel", relative_difference_lower_bound_column_name="lo",
                   relative_difference_upper_bound_column_name="hi", is_significant_column_name="sig")
  data = pd.DataFrame(rows, columns=columns, index=pd.Index(metrics, name=gen.pick(rng, ["metric", None, "m"])))
  data["p_value"] = rng.random(n)
  data = data[[data.columns[i] for i in rng.permutation(len(data.columns))]]
  axs = plotting.plot_effects(data, design, **options)
  ctx.event("plots")
  ctx.event("only_primary", n == 1)
  ctx.distinct(tuple(metrics), side, metrics.index(primary))
  first, stray = read_effects(axs[0])
  second, more = read_effects(axs[1])
  ctx.check(not stray and not more, "something is drawn beside no name", stray=stray + more)
  ctx.equal(sorted(first), [primary], "the primary metric is not set apart")
  ctx.equal(sorted(second), sorted(set(metrics) - {primary}), "not every other metric has its name")
  for metric, (value, low, high, significant) in zip(metrics, rows):
    got = (first if metric == primary else second)[metric]
    about = dict(metric=metric, value=value, low=low, high=high, drawn=got)
    ctx.event("metrics")
    ctx.event("significant" if significant else "insignificant")
    ctx.check(len(got["points"]) > 0 and len(got["segments"]) > 0, "a metric is not drawn", **about)
    centre = 0.0 if math.isnan(value) else value
    ctx.event("missing", math.isnan(value))
    ctx.check(np.allclose(got["points"], centre, rtol=1e-9, atol=1e-12), "a wrong estimate is drawn", **about)
    left, right = min(s[0] for s in got["segments"]), max(s[1] for s in got["segments"])
    ctx.check(all(s[2] == significant for s in got["segments"]), "dashed although significant, or the reverse", **about)
    for bound, end, arrows, against, name in ((low, left, "left", "right", "low"), (high, right, "right", "left", "high")):
      if math.isfinite(bound):
        ctx.close(end, bound, "a wrong bound is drawn", rtol=1e-9, atol=1e-12, side=name, **about)
        ctx.check(not got[arrows], "an arrow at a bounded side", side=name, **about)
      else:
        ctx.event("unbounded_" + name)
        ctx.check(len(got[arrows]) > 0, "an unbounded side has no arrow", side=name, **about)
        ctx.check(all((tip <= centre + 1e-12) if name == "low" else (tip >= centre - 1e-12) for tip in got[arrows]),
                  "an arrow does not point away from the estimate", side=name, **about)
        ctx.check(end <= centre + 1e-12 if name == "low" else end >= centre - 1e-12, "a side points inwards", **about)
  ctx.sample(metrics=metrics, primary=primary, side=side)


@V03.scenario(quick=24, thorough=200)
@drawing
def missing_primary(ctx, rng):
  design = gen.design(rng, metric="clicks")
  data = pd.DataFrame(dict(relative_difference=[0.1, 0.2], relative_difference_lower_bound=0.0,
                           relative_difference_upper_bound=0.3, is_significant=[True, False]),
                      index=pd.Index(["impressions", gen.pick(rng, ["click", "clicks 2", "cost"])], name="metric"))
  ctx.event("rejected")
  with ctx.raises(ValueError, "a missing primary metric was accepted"):
    plotting.plot_effects(data, design)
