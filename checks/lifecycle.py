"""E01: the documented workflow of both notebooks, as one monitored history."""

import dataclasses
import datetime as dt
import os
import tempfile

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # pylint: disable=g-import-not-at-top,g-bad-import-order
import numpy as np
import pandas as pd

from feedx import data_preparation as dp
from feedx import experiment_analysis as ea
from feedx import experiment_design
from feedx import experiment_simulations as es
from feedx import plotting

from checks import analysis
from checks import display
from mon import core
from mon import gen
from mon import ref
from mon import table

PROPS = {}
ExperimentDesign = experiment_design.ExperimentDesign

E01 = PROPS["E01"] = core.Property(
    "E01",
    rule="Random histories (daily or weekly, sparse or complete, text or numeric ids), candidate designs, salts and "
    "experiment data, passed on directly, through csv files or as the text of a sheet; every step is monitored, the "
    "workflow is repeated from the same random state, and validated against mix-ups with other experiments. "
    "distinct = (history, design, way of passing).",
    require={"workflows": 60, "results": 150, "crossover": 15, "regular": 15, "pretrimmed": 12, "csv": 12, "sheet": 12,
             "direct": 12, "sparse": 12, "simulated": 20, "repeated": 15, "mix_ups": 150})


def passed_on(frame, way, folder, name):
  """What the next notebook sees of a frame."""
  if way == "direct":
    return frame
  if way == "csv":
    path = os.path.join(folder, name + ".csv")
    frame.to_csv(path, index=False)
    return pd.read_csv(path)
  return frame.astype(str)


def raw_frame(rng, ids, days, values, present, columns, numeric):
  cells = np.argwhere(present)
  cells = cells[rng.permutation(len(cells))]
  items = np.array([int(i) for i in ids]) if numeric else np.array(ids, dtype=object)
  data = {columns["item"]: items[cells[:, 0]], columns["date"]: [days[d].isoformat() for d in cells[:, 1]]}
  for m, v in values.items():
    data[columns[m]] = v[cells[:, 0], cells[:, 1]]
  return pd.DataFrame(data)


def inputs(rng, given=None, other="margin"):
  """Everything a user starts with."""
  n = int(rng.integers(75, 130))
  numeric = gen.chance(rng, 0.4)
  ids = gen.item_ids(rng, n, "number" if numeric else gen.pick(rng, ["item", "sku"]))
  weekly = gen.chance(rng, 0.3)
  sparse = gen.chance(rng, 0.4)
  weeks = int(rng.integers(9, 13))
  per_week = 1 if weekly else 7
  n_days = weeks * per_week + (0 if weekly else int(rng.integers(0, 7)))
  first = gen.start_date(rng)
  days = [first + dt.timedelta(days=d * (7 if weekly else 1)) for d in range(n_days)]
  metrics = ["clicks", "impressions", "total_cost"]
  primary = gen.pick(rng, metrics + ["other"])
  columns = gen.pick(rng, [dict(item="Item ID", date="Day", clicks="Clicks", impressions="Impr.", total_cost="Cost"),
                           dict(item="item_id", date="date", clicks="clicks", impressions="impressions", total_cost="total_cost")])
  columns = dict(given or columns, **{other: other})
  metric = other if primary == "other" else primary
  values = gen.weekly_metric(rng, n, n_days, "continuous") + 0.01
  present = np.ones((n, n_days), dtype=bool)
  if sparse:
    present = rng.random((n, n_days)) < 0.8
    present[np.arange(n), rng.integers(0, n_days, n)] = True
    present[rng.integers(0, n, n_days), np.arange(n_days)] = True
  return dict(n=n, ids=ids, numeric=numeric, weekly=weekly, sparse=sparse, weeks=weeks, days=days, first=first, values=values,
              present=present, metric=metric, primary=primary, columns=columns, metrics=metrics, other=other,
              history=raw_frame(rng, ids, days, {metric: values}, present, columns, numeric))


def design_stage(start, choices, seed, folder, keep, salt=None):
  """The first notebook. Returns what was seen on the way.

  The salt of a new randomisation is fresh by design, whatever the random state: repeating one takes its salt.
  """
  rng = np.random.default_rng(seed)
  seen = {}
  c = start["columns"]
  history = dp.prepare_and_validate_historical_data(
      passed_on(start["history"], choices["way"], folder, "history"), item_id_column=c["item"], date_column=c["date"],
      primary_metric=start["primary"], primary_metric_column=c[start["metric"]], rng=rng)
  seen["history"] = history
  designs = es.generate_all_valid_designs(
      n_items_before_trimming=history["item_id"].nunique(), primary_metric=start["metric"], **choices["candidates"])
  minimum = es.calculate_minimum_start_week_id(
      choices["candidates"]["candidate_runtime_weeks"], choices["candidates"]["candidate_pretest_weeks"],
      history["week_id"].unique())
  seen["designs"] = [d.design_id for d in designs]
  if choices["simulate"]:
    analyses = {}
    for design in designs:
      a = es.SimulationAnalysis(design=design, historical_data=history.copy(), item_id_column="item_id",
                                week_id_column="week_id", minimum_start_week_id=minimum, rng=rng)
      a.estimate_minimum_detectable_effect()
      analyses[design.design_id] = a
    summary = es.make_analysis_summary_dataframe(analyses.values())
    chosen = analyses[summary.index[choices["chosen"] % len(summary)]]
    chosen.validate_design(choices["simulations"], progress_bar=False)
    seen["aa"], seen["ab"] = chosen.aa_simulation_results, chosen.ab_simulation_results
    summary = es.make_analysis_summary_dataframe(analyses.values())
    seen["summary"] = summary
    seen["shown summary"] = table.read(es.format_analysis_summary_dataframe(summary))
    design = chosen.design
  else:
    design = designs[choices["chosen"] % len(designs)]
  if salt is not None:
    design.coinflip_salt = salt
  items = dp.perform_treatment_assignment(history, design=design, rng=rng, item_id_column="item_id", week_id_column="week_id")
  path = os.path.join(folder, "design.yaml")
  design.write_to_yaml(path)
  with open(path) as f:
    seen["yaml"] = f.read()
  loaded = ExperimentDesign.load_from_yaml(path)
  seen["items"] = items
  keep.update(design=design, loaded=loaded, items=items, minimum=minimum)
  return seen


def analysis_stage(start, e, choices, folder, keep):
  """The second notebook."""
  c = start["columns"]
  items = passed_on(keep["items"], choices["way"], folder, "items")
  items = items.rename(columns={"item_id": c["item"]})
  performance = passed_on(e["performance"], choices["way"], folder, "performance")
  kwargs = dict(
      daily_performance_data=performance, treatment_assignment_data=items, design=keep["loaded"],
      experiment_start_date=e["begin"].isoformat(), item_id_column=c["item"], date_column=c["date"],
      treatment_assignment_column="treatment_assignment", other_metric_columns=[start["other"]],
      at_least_one_metrics={"clicks": "at_least_one_click"}, **{m + "_column": c[m] for m in start["metrics"]})
  data = dp.prepare_and_validate_experiment_data(**kwargs)
  results = ea.analyze_experiment(data.drop(columns="time_period"), design=keep["loaded"], metrics=e["analysed"])
  keep.update(kwargs=kwargs, data=data, results=results)
  return {"data": data, "results": results,
          "shown results": table.read(ea.format_experiment_analysis_results_dataframe(results))}


def fingerprints(seen):
  return {k: gen.frame_fingerprint(v) if isinstance(v, pd.DataFrame) else repr(v) for k, v in seen.items()}


def make_experiment(rng, start, design, items, zeros=True):
  """The performance data of the experiment of the randomised items, and the rows the analysis must be of."""
  ids = [str(i) for i in items["item_id"]]
  arms = dict(zip(ids, (int(t) for t in items["treatment_assignment"])))
  weekly = start["weekly"]
  begin = start["days"][-1] + dt.timedelta(days=int(rng.integers(1, 60)) + 7 * design.pretest_weeks)
  offsets = range(-7 * design.pretest_weeks, 7 * design.runtime_weeks, 7 if weekly else 1)
  days = [begin + dt.timedelta(days=o) for o in offsets]
  extra = [str(10**9 + 7 * k) if start["numeric"] else f"unassigned {k}" for k in range(int(gen.pick(rng, [0, 5, 30])))]
  everyone = ids + extra
  metrics = start["metrics"] + [start["other"]]
  values = {m: gen.weekly_metric(rng, len(everyone), len(days), "continuous") + 0.01 for m in metrics}
  values["clicks"] = values["impressions"] * rng.uniform(0.01, 0.5, values["clicks"].shape)
  no_clicks = zeros and start["metric"] != "clicks" and gen.chance(rng, 0.6)
  if no_clicks:
    values["clicks"] *= rng.random(values["clicks"].shape) < 0.5
  present = np.ones((len(everyone), len(days)), dtype=bool)
  sparse = start["sparse"] and design.post_trim_percentile == 0
  if sparse:
    present = rng.random(present.shape) < 0.85
    present[0] = True
    present[np.arange(len(everyone)), rng.integers(0, len(days), len(everyone))] = True
    if gen.chance(rng, 0.5):
      present[1:4] = False
  lift = gen.pick(rng, [1.0, 1.0, 1.3])
  weeks = [ref.week_of(d, begin) for d in days]
  for k, w in enumerate(weeks):
    label = ref.period_label(w, 0, design)
    treated = np.array([{"test": arms.get(i) == 1, "test_1": arms.get(i) == 1, "test_2": arms.get(i) == 0}.get(label, False)
                        for i in everyone])
    values[start["metric"]][treated, k] *= lift
  frame = raw_frame(rng, everyone, days, values, present, start["columns"], start["numeric"])
  n = len(ids)
  filled = {m: np.where(present, v, 0.0)[:n] for m, v in values.items()}
  rows = pd.DataFrame({"item": np.repeat(np.array(ids, dtype=object), len(days)), "week": np.tile(weeks, n),
                       **{m: v.ravel() for m, v in filled.items()}})
  rows["at_least_one_click"] = (rows["clicks"] > 0).astype(float)
  override = gen.pick(rng, [None, 0.0])
  analysed = [ea.Metric(start["metric"].title(), start["metric"], None, None)]
  # Ties are broken arbitrarily when trimming, so what is often zero is not trimmed.
  analysed += [ea.Metric(m, m, None, 0.0 if sparse or (no_clicks and m == "clicks") else override)
               for m in metrics if m != start["metric"]]
  if no_clicks:
    analysed.append(ea.Metric("At least one click", "at_least_one_click", None, 0.0))
  analysed.append(ea.Metric("CTR", "clicks", "impressions", 0.0 if sparse or no_clicks else None))
  analysed = [analysed[0]] + [m for m in analysed[1:] if gen.chance(rng, 0.6)]
  return dict(performance=frame, begin=begin, days=days, rows=rows, arms=arms, ids=ids, analysed=analysed, sparse=sparse,
              metrics=metrics + ["at_least_one_click"], present=present[:n], filled=filled)


def judge_items(ctx, start, design, items):
  """The randomised items, from the raw history."""
  per_week = 1 if start["weekly"] else 7
  filled = np.where(start["present"], start["values"], 0.0)
  weekly = filled[:, : start["weeks"] * per_week].reshape(start["n"], start["weeks"], per_week).sum(axis=2)
  kept = list(start["ids"])
  trimmed = design.pre_trim_top_percentile > 0 or design.pre_trim_bottom_percentile > 0
  if trimmed:
    ctx.event("pretrimmed")
    totals = weekly[:, start["weeks"] - design.pretest_weeks:].sum(axis=1)
    order = np.argsort(totals, kind="stable")
    low = ref.n_floor(design.pre_trim_bottom_percentile, start["n"])
    high = ref.n_floor(design.pre_trim_top_percentile, start["n"])
    kept = [start["ids"][i] for i in order[low: start["n"] - high]]
    sorted_totals = totals[order]
    for cut in (low, start["n"] - high):
      if 0 < cut < start["n"] and sorted_totals[cut] - sorted_totals[cut - 1] <= 1e-9 * sorted_totals[-1]:
        kept = None
        break
  got = [str(i) for i in items["item_id"]]
  ctx.equal(len(set(got)), len(got), "an item was randomised twice")
  ctx.equal(len(got), design.n_items_after_pre_trim, "not the number of items of the design")
  if kept is not None:
    ctx.equal(sorted(got), sorted(kept), "the wrong items were randomised")
  wrong = [i for i, t in zip(got, items["treatment_assignment"]) if int(t) != ref.coinflip(design.coinflip_salt, i)]
  ctx.check(not wrong, "an item is in the wrong group", items=wrong[:5])


def judge_data(ctx, e, design, data):
  """The prepared rows, from the raw experiment."""
  position = {(i, d): (a, b) for a, i in enumerate(e["ids"]) for b, d in enumerate(e["days"])}
  keys = list(zip(data["item_id"].astype(str), [ref.as_date(d) for d in data["date"]]))
  ctx.equal(sorted(keys), sorted(position), "not one row per randomised item and date")
  rows = np.array([position[k] for k in keys])
  for m, v in e["filled"].items():
    ctx.close(data[m].to_numpy(float), v[rows[:, 0], rows[:, 1]], f"{m} is not the raw value or zero", rtol=1e-9)
  labels = [ref.period_label(ref.week_of(d, e["begin"]), 0, design) for _, d in keys]
  ctx.equal(list(data["time_period"]), labels, "wrong periods")
  ctx.equal([int(t) for t in data["treatment_assignment"]], [e["arms"][i] for i, _ in keys], "wrong groups")


def judge_mix_ups(ctx, rng, start, e, choices, keep):
  """What does not belong to this experiment is rejected."""
  kwargs, design = keep["kwargs"], keep["loaded"]
  other = dataclasses.asdict(design)
  other.pop("n_items_after_pre_trim")
  other.pop("n_items_after_post_trim")
  def with_design(**changes):
    params = dict(other, **changes)
    if ref.design_problems(params):
      return None
    return dict(kwargs, design=ExperimentDesign(**params))
  items = kwargs["treatment_assignment_data"]
  salt = str(design.coinflip_salt) + "x"
  moved = items.copy()
  text = moved.iloc[:, 0].astype(str)
  moved["treatment_assignment"] = [ref.coinflip(salt, i) for i in text]
  flipped = items.copy()
  row = int(rng.integers(len(items)))
  was = flipped["treatment_assignment"].tolist()
  was[row] = type(was[row])(1 - int(was[row]))
  flipped["treatment_assignment"] = was
  week = dt.timedelta(weeks=int(rng.integers(1, 4)))
  attempts = {
      "the design of another randomisation": with_design(coinflip_salt=salt),
      "a design of more items": with_design(n_items_before_trimming=design.n_items_before_trimming + int(rng.integers(2, 40))),
      "a longer design": with_design(runtime_weeks=design.runtime_weeks + 2),
      "a design with more pretest weeks": with_design(pretest_weeks=design.pretest_weeks + 1),
      "a design of a metric that is not there": with_design(primary_metric="conversions"),
      "the assignment of another experiment": dict(kwargs, treatment_assignment_data=moved),
      "one item in the other group": dict(kwargs, treatment_assignment_data=flipped),
      "an assignment without an item": dict(kwargs, treatment_assignment_data=items.drop(items.index[row])),
      "a later start": dict(kwargs, experiment_start_date=(e["begin"] + week).isoformat()),
      "an earlier start": dict(kwargs, experiment_start_date=(e["begin"] - week).isoformat()),
  }
  if with_design(n_items_before_trimming=design.n_items_before_trimming) is None:
    return
  more = attempts["a design of more items"]
  if more is not None and more["design"].n_items_after_pre_trim == design.n_items_after_pre_trim:
    attempts["a design of more items"] = None
  if all(ref.coinflip(salt, i) == t for i, t in e["arms"].items()):
    return
  for name, attempt in attempts.items():
    if attempt is None:
      continue
    ctx.event("mix_ups")
    with ctx.raises(ValueError, f"{name} was accepted", design=str(design), way=choices["way"]):
      with core.captured():
        dp.prepare_and_validate_experiment_data(**attempt)


@E01.scenario(quick=112, thorough=1200)
def workflow(ctx, rng):
  start = inputs(rng)
  crossover = gen.chance(rng, 0.6)
  pretest = [int(gen.pick(rng, [0, 1, 2]))] if gen.chance(rng, 0.5) else [1, 2]
  trims = lambda: gen.pick(rng, [[0.0], [0.0, 0.05], [0.03], [0.1]]) if 0 not in pretest else [0.0]
  choices = dict(
      way=gen.pick(rng, ["direct", "csv", "sheet"]), simulate=gen.chance(rng, 0.35), chosen=int(rng.integers(0, 100)),
      simulations=6,
      candidates=dict(crossover_design_allowed=crossover, traditional_design_allowed=not crossover or gen.chance(rng, 0.5),
                      candidate_runtime_weeks=gen.pick(rng, [[2], [4], [2, 4]]), candidate_pretest_weeks=pretest,
                      candidate_pre_trim_top_percentiles=trims(), candidate_pre_trim_bottom_percentiles=trims(),
                      candidate_post_trim_percentiles=gen.pick(rng, [[0.0], [0.02], [0.0, 0.05]]),
                      crossover_washout_weeks=int(rng.integers(0, 1)) if not crossover else 0))
  if crossover and min(choices["candidates"]["candidate_runtime_weeks"]) > 2:
    choices["candidates"]["crossover_washout_weeks"] = int(rng.integers(0, 2))
  seed = int(rng.integers(2**31))
  keep = {}
  with tempfile.TemporaryDirectory() as folder, core.captured():
    status, seen = core.outcome(design_stage, start, choices, seed, folder, keep)
    if status == "error" and isinstance(seen, ValueError) and "sample_ratio" in str(seen):
      ctx.event("unbalanced")  # By chance, about once in a thousand.
      return
    if status == "error":
      raise seen
    design, loaded = keep["design"], keep["loaded"]
    ctx.event("workflows")
    ctx.event(choices["way"])
    ctx.event("sparse", start["sparse"])
    ctx.event("simulated", choices["simulate"])
    ctx.event("crossover" if design.is_crossover else "regular")
    ctx.distinct(start["n"], start["first"], design.design_id, choices["way"])
    ctx.equal(loaded, design, "the saved design is another design")
    ctx.equal(loaded.design_id, design.design_id, "the saved design has another id")
    ctx.check(bool(loaded.coinflip_salt), "the saved design has no salt")
    judge_items(ctx, start, loaded, keep["items"])
    if choices["simulate"]:
      ctx.equal(len(seen["aa"]), choices["simulations"], "wrong number of simulations")

    e = make_experiment(rng, start, loaded, keep["items"])
    seen.update(analysis_stage(start, e, choices, folder, keep))
    judge_data(ctx, e, loaded, keep["data"])
    about = dict(data=e["rows"], design=loaded, treatment=e["arms"], metrics=e["metrics"], names=dict(item="item", week="week"))
    analysis.judge_results(ctx, about, e["analysed"], keep["results"])
    display.judge_table(ctx, keep["results"], {})
    if gen.chance(rng, 0.15):
      # The plots take what the analysis makes.
      plotting.plot_metric_over_time(
          keep["data"], metric_column=start["metric"], item_id_column="item_id", time_period_column="time_period",
          treatment_assignment_column="treatment_assignment", date_column="date", design=loaded,
          apply_cuped_adjustment=loaded.pretest_weeks > 0)
      if start["metric"] == e["analysed"][0].column:
        plotting.plot_effects(keep["results"], loaded)
      plt.close("all")

    if gen.chance(rng, 0.4):
      ctx.event("repeated")
      again, keep_again = {}, {}
      with tempfile.TemporaryDirectory() as second:
        again = design_stage(start, choices, seed, second, keep_again, salt=loaded.coinflip_salt)
        again.update(analysis_stage(start, e, choices, second, keep_again))
      first, second = fingerprints(seen), fingerprints(again)
      ctx.equal([k for k in first if first[k] != second.get(k)], [], "repeating the workflow gives something else")
    judge_mix_ups(ctx, rng, start, e, choices, keep)
  ctx.sample(design=loaded.design_id, crossover=loaded.is_crossover, way=choices["way"], items=start["n"],
             sparse=start["sparse"], simulated=choices["simulate"], metrics=len(e["analysed"]))
