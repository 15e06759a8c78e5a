"""A06, M06: what the tables for the user show."""

import dataclasses
import math
import re

import numpy as np
import pandas as pd

from feedx import experiment_analysis as ea
from feedx import experiment_simulations as es
from feedx import statistics as fs

from checks import analysis
from checks import simulations
from mon import core
from mon import gen
from mon import table

PROPS = {}
RELATIVE, ABSOLUTE, PROJECTED, P_VALUE = "relative", "absolute", "projected", "p-value"
FIELDS = [f.name for f in dataclasses.fields(fs.StatisticalTestResults)]


# ------------------------------------------------------------------------ A06
A06 = PROPS["A06"] = core.Property(
    "A06",
    rule="Result tables of analysed experiments and random tables with large, tiny, zero, infinite and "
    "missing values, p-values around every boundary, every combination of sections and of precisions "
    "from 0 (1) to 6. The rendered html is parsed back. distinct = (sections, precisions, alpha, rows).",
    require={"tables": 250, "rows": 1000, "increases": 100, "decreases": 100, "insignificant": 200,
             "infinite": 200, "missing": 100, "hidden_sections": 100, "projections": 300, "analysed": 20,
             "p_below": 30, "p_three": 30, "p_two": 100, "p_above": 30})


def random_results(rng, n=None):
  """A table of results like the one of an analysis."""
  alpha = gen.alpha(rng) if gen.chance(rng, 0.8) else float(gen.pick(rng, [5e-4, 1e-4, 2e-6]))
  n = n or gen.size(rng, 1, 9, 60)
  rows = []
  for _ in range(n):
    p = float(gen.pick(rng, [
        rng.random(), rng.random(), rng.random() * alpha, 0.0, 1.0, 1e-9, 0.001, 0.00099, 0.00999, 0.01, 0.0101,
        0.99, 0.9901, 0.98999, 1 - 1e-9, alpha * (1 - 1e-9), alpha, alpha * (1 + 1e-9), rng.uniform(0, 0.01)]))
    magnitude = 10.0 ** rng.uniform(-7, 9)
    diff = float(rng.choice([-1, 1]) * magnitude * rng.uniform(0.1, 1))
    low, high = diff - magnitude * rng.lognormal(), diff + magnitude * rng.lognormal()
    rel = float(rng.normal() * 10.0 ** rng.uniform(-4, 1))
    rel_low, rel_high = rel - abs(rng.normal()) * 0.3, rel + abs(rng.normal()) * 0.3
    side = gen.pick(rng, ["two-sided"] * 3 + ["greater", "less", "unbounded"])
    if side in ("greater", "unbounded"):
      high, rel_high = (math.inf if side == "greater" else high), math.inf
    if side in ("less", "unbounded"):
      low, rel_low = (-math.inf if side == "less" else low), -math.inf
    if gen.chance(rng, 0.15):
      rel = rel_low = rel_high = math.nan
    if gen.chance(rng, 0.05):
      diff = 0.0
      p = 1.0
    rows.append(dict(
        is_significant=p < alpha, alpha=alpha, p_value=p, statistic=float(rng.normal()), absolute_difference=diff,
        absolute_difference_lower_bound=float(low), absolute_difference_upper_bound=float(high),
        relative_difference=rel, relative_difference_lower_bound=float(rel_low),
        relative_difference_upper_bound=float(rel_high), standard_error=magnitude,
        sample_size=int(10 ** rng.uniform(1, 6)), degrees_of_freedom=gen.pick(rng, [10, 33.7]),
        control_average=float(rng.lognormal())))
  names = gen.pick(rng, [["clicks", "impressions", "CTR", "total cost", "métrique", "AOV (EUR)", "a_b", "7", "x: y"],
                         [f"Metric {i}" for i in range(9)]]) if n < 9 else [f"Metric {i}" for i in range(n)]
  names = [names[i] for i in rng.permutation(len(names))[:n]]
  out = pd.DataFrame(rows, index=pd.Index(names, name="metric"))
  return out.astype({c: float for c in out.columns if c.startswith("relative")})


def shows(ctx, text, value, what, decimals=None, figures=None, suffix="", scale=1.0, separators=True):
  """`text` is the signed `value` at the requested precision."""
  value = value * scale
  about = dict(shown=text, value=value, decimals=decimals, figures=figures)
  ctx.check(text.endswith(suffix), f"{what}: no {suffix!r}", **about)
  number = text[: len(text) - len(suffix)]
  if math.isnan(value):
    ctx.check("nan" in number.lower(), f"{what}: a missing value is shown as a number", **about)
    return
  ctx.check(number[:1] in "+-", f"{what}: no sign", **about)
  if math.isinf(value):
    ctx.check(number == ("+inf" if value > 0 else "-inf"), f"{what}: wrong infinity", **about)
    return
  try:
    shown = float(number.replace(",", ""))
  except ValueError:
    ctx.fail(f"{what}: not a number", **about)
    return
  if separators and "e" not in number:
    whole = number[1:].split(".")[0]
    ctx.check(re.fullmatch(r"\d{1,3}(,\d{3})*", whole) is not None, f"{what}: wrong thousands separators", **about)
  if decimals is not None:
    ctx.check(len(number.partition(".")[2]) == decimals, f"{what}: wrong number of decimals", **about)
    tolerance = 0.5 * 10.0 ** -decimals
  else:
    tolerance = 0.5 * 10.0 ** (math.floor(math.log10(abs(value))) - figures + 1) if value else 0.0
  ctx.check(abs(shown - value) <= tolerance * (1 + 1e-6) + abs(value) * 1e-12, f"{what}: wrong value", **about)


def kind_of(header):
  header = header.lower()
  for kind in (RELATIVE, ABSOLUTE, PROJECTED, P_VALUE):
    if kind in header:
      return kind
  return None


def judge_table(ctx, results, options, shown=None):
  sections = {RELATIVE: options.get("include_relative_effect", True),
              ABSOLUTE: options.get("include_absolute_effect", True),
              PROJECTED: options.get("include_yearly_projected_effect", False), P_VALUE: True}
  relative = options.get("relative_effect_decimal_places", 2)
  figures = options.get("absolute_effect_significant_figures", 3)
  projected = options.get("yearly_projected_effect_decimal_places", 0)
  before = gen.frame_fingerprint(results)
  if shown is None:
    shown = table.read(ea.format_experiment_analysis_results_dataframe(results, **options))
  ctx.equal(gen.frame_fingerprint(results), before, "the results were modified")
  ctx.event("tables")
  ctx.equal(shown["index"], [str(i).strip() for i in results.index], "not one row per metric, in order")
  want = [(kind, part) for kind in (RELATIVE, ABSOLUTE, PROJECTED) if sections[kind] for part in ("point", "interval")]
  want.append((P_VALUE, ""))
  got = []
  alpha = float(results["alpha"].iloc[0])
  for top, sub in shown["columns"]:
    kind = kind_of(top)
    if kind == P_VALUE or kind is None:
      got.append((kind, sub))
    elif "point" in sub.lower():
      got.append((kind, "point"))
    else:
      got.append((kind, "interval"))
      label = re.fullmatch(r"(\d+(?:\.\d+)?)% CI", sub)
      ctx.check(label is not None and abs(float(label.group(1)) - 100 * (1 - alpha)) <= 0.5 + 1e-9,
                "the interval label is not the one of alpha", label=sub, alpha=alpha)
  ctx.check(sorted(got) == sorted(want), "wrong sections", shown=shown["columns"], wanted=want)
  ctx.event("hidden_sections", not all(sections.values()))
  for (_, row), cells in zip(results.iterrows(), shown["cells"]):
    ctx.event("rows")
    values = {
        RELATIVE: [row["relative_difference" + s] for s in ("", "_lower_bound", "_upper_bound")],
        ABSOLUTE: [row["absolute_difference" + s] for s in ("", "_lower_bound", "_upper_bound")]}
    values[PROJECTED] = [52 * row["sample_size"] * v for v in values[ABSOLUTE]]
    ctx.event("infinite", any(math.isinf(v) for v in values[RELATIVE] + values[ABSOLUTE]))
    ctx.event("missing", math.isnan(values[RELATIVE][0]))
    how = {RELATIVE: dict(decimals=relative, suffix="%", scale=100.0, separators=False), ABSOLUTE: dict(figures=figures),
           PROJECTED: dict(decimals=projected)}
    for (kind, part), cell in zip(got, cells):
      if kind == P_VALUE:
        judge_p_value(ctx, cell["text"], row)
        continue
      ctx.event("projections", kind == PROJECTED)
      texts = [cell["text"]] if part == "point" else cell["text"].split(" to ")
      numbers = values[kind][:1] if part == "point" else values[kind][1:]
      ctx.check(len(texts) == len(numbers), f"{kind} {part}: not an interval", shown=cell["text"])
      for text, number in zip(texts, numbers):
        shows(ctx, text, float(number), f"{kind} {part}", **how[kind])
    if not row["is_significant"]:
      style = ("color", "grey")
      ctx.event("insignificant")
    elif row["absolute_difference"] > 0:
      style = ("background-color", "lightgreen")
      ctx.event("increases")
    else:
      style = ("background-color", "pink")
      ctx.event("decreases")
    for cell in cells:
      ctx.check({k: v for k, v in cell["style"].items() if "color" in k} == dict([style]), "wrong highlighting",
                significant=bool(row["is_significant"]), difference=row["absolute_difference"], style=cell["style"])


def judge_p_value(ctx, text, row):
  p = row["p_value"]
  about = dict(shown=text, p=p, alpha=row["alpha"])
  note = text.endswith(" (Significant)")
  ctx.check(note == bool(row["is_significant"]), "wrong significance note", **about)
  number = text.removesuffix(" (Significant)")
  match = re.fullmatch(r"p(<|=|>)(\d\.\d+)", number)
  ctx.check(match is not None, "not a p-value", **about)
  relation, bound = match.groups()
  value = float(bound)
  if relation == "<":
    ctx.event("p_below")
    ctx.check(p < value and value == 0.001, "wrong p-value", **about)
  elif relation == ">":
    ctx.event("p_above")
    ctx.check(p > value and value == 0.99, "wrong p-value", **about)
  else:
    decimals = len(bound) - 2
    ctx.event("p_three" if decimals == 3 else "p_two")
    ctx.check(decimals == (3 if p < 0.01 else 2) and 0.001 <= p <= 0.99, "wrong precision of the p-value", **about)
    ctx.check(abs(value - p) <= 0.5 * 10.0 ** -decimals + 1e-12, "wrong p-value", **about)


def random_options(rng):
  options = {}
  for name in ("include_relative_effect", "include_absolute_effect", "include_yearly_projected_effect"):
    if gen.chance(rng, 0.6):
      options[name] = gen.chance(rng, 0.6)
  for name, low in (("relative_effect_decimal_places", 0), ("absolute_effect_significant_figures", 1),
                    ("yearly_projected_effect_decimal_places", 0)):
    if gen.chance(rng, 0.5):
      options[name] = int(rng.integers(low, 7))
  return options


@A06.scenario(quick=320, thorough=6000)
def random_tables(ctx, rng):
  results, options = random_results(rng), random_options(rng)
  ctx.distinct(sorted(options.items()), float(results["alpha"].iloc[0]), len(results))
  judge_table(ctx, results, options)
  ctx.sample(rows=len(results), alpha=float(results["alpha"].iloc[0]), options=options)


@A06.scenario(quick=24, thorough=400)
def analysed_tables(ctx, rng):
  e = analysis.experiment(rng, signed=gen.chance(rng, 0.3))
  metrics = analysis.random_metrics(rng, e, "continuous", ratio=True)
  results = analysis.analyse(e, metrics)
  options = random_options(rng)
  ctx.event("analysed")
  ctx.distinct("analysed", sorted(options.items()), e["design"].design_id)
  judge_table(ctx, results, options)


# ------------------------------------------------------------------------ M06
M06 = PROPS["M06"] = core.Property(
    "M06",
    rule="Lists of 1 to 8 analysed designs (estimated, validated or mixed) with some, all or no design "
    "parameters in common. The rendered html is parsed back. distinct = (designs, validated, columns shown).",
    require={"tables": 120, "rows": 350, "cells": 3000, "single": 10, "constant": 200, "varying": 500,
             "mixed": 20, "without_validation": 30, "passed": 200, "failed": 200, "unvalidated": 200})

SHARED = ["primary_metric", "alpha", "power", "n_items_before_trimming", "n_items_after_pre_trim",
          "n_items_after_post_trim", "runtime_weeks", "pretest_weeks", "pre_trim_top_percentile",
          "pre_trim_bottom_percentile", "post_trim_percentile", "is_crossover"]
PERCENT = ["relative_minimum_detectable_effect", "pre_trim_top_percentile", "pre_trim_bottom_percentile",
           "post_trim_percentile", "simulated_false_positive_rate", "simulated_power_at_minimum_detectable_effect"]


def similar_analyses(rng):
  """Analyses of designs that share some of their parameters."""
  state, analyses = simulations.summary_inputs(rng)
  if gen.chance(rng, 0.7) and len(analyses) > 1:
    base = gen.design_params(rng)
    out, seen = [], set()
    shared = [k for k in base if gen.chance(rng, 0.6)]
    for a in analyses:
      params = dict(gen.design_params(rng), **{k: base[k] for k in shared})
      for k in ("alpha", "power", "post_trim_percentile", "pre_trim_top_percentile"):
        # Nearly, but not quite, the same value.
        if k in shared and 0 < params[k] < 1 and gen.chance(rng, 0.3):
          params[k] = float(params[k] * (1 + gen.pick(rng, [1e-3, 1e-4, -1e-3])))
      try:
        design = gen.ExperimentDesign(**params)
      except ValueError:
        continue
      if design.design_id not in seen:
        seen.add(design.design_id)
        a.design = design
        out.append(a)
    analyses = out or analyses[:1]
  return state, analyses


def same(text, value):
  """A caption's text for a value."""
  if isinstance(value, (bool, np.bool_, str)):
    return text == str(value)
  try:
    return abs(float(text) - float(value)) <= 1e-9 * abs(float(value))
  except ValueError:
    return False


def cell_shows(ctx, cell, value, name):
  text, about = cell["text"], dict(shown=cell["text"], value=value, column=name)
  missing = value is None or (not isinstance(value, str) and pd.isna(value))
  if missing:
    hidden = "opacity" in cell["style"]
    ctx.check(hidden or text == "", "a missing value is shown", style=cell["style"], **about)
    return
  ctx.check("opacity" not in cell["style"], "a value is not shown", style=cell["style"], **about)
  if isinstance(value, (bool, np.bool_, str)):
    ctx.check(text == str(value), "a wrong value is shown", **about)
    return
  percent = name in PERCENT
  ctx.check(text.endswith("%") == percent, "a wrong unit is shown", **about)
  number = text.removesuffix("%").replace(",", "")
  try:
    shown = float(number)
  except ValueError:
    ctx.fail("not a number", **about)
    return
  want = float(value) * (100 if percent else 1)
  decimals = len(number.partition(".")[2])
  ctx.check(decimals == 2 if percent else (decimals >= 4 or float(value).is_integer()), "too few decimals", **about)
  ctx.check(abs(shown - want) <= 0.5 * 10.0 ** -decimals * (1 + 1e-6) + 1e-9 * abs(want), "a wrong value is shown", **about)


@M06.scenario(quick=160, thorough=3000)
def comparisons(ctx, rng):
  state, analyses = similar_analyses(rng)
  if all(a.minimum_detectable_effect is None for a in analyses):
    return  # There is nothing to compare yet.
  summary = es.make_analysis_summary_dataframe(analyses)
  options = {} if gen.chance(rng, 0.5) else {"with_validation_columns": gen.chance(rng, 0.4)}
  with_validation = options.get("with_validation_columns", True)
  before = gen.frame_fingerprint(summary)
  shown = table.read(es.format_analysis_summary_dataframe(summary, **options))
  ctx.equal(gen.frame_fingerprint(summary), before, "the summary was modified")
  ctx.event("tables")
  ctx.event("single", len(analyses) == 1)
  ctx.event("mixed", state == "mixed")
  ctx.event("without_validation", not with_validation)
  ctx.equal(shown["index"], [str(i) for i in summary.index], "not one row per design, in order")
  by_id = {str(a.design.design_id): a for a in analyses}
  columns = [c[-1].lower().replace(" ", "_") for c in shown["columns"]]
  ctx.equal(len(columns), len(set(columns)), "a column is shown twice")

  constant = {}
  for name in SHARED:
    values = {getattr(a.design, name) for a in analyses}
    if len(values) == 1:
      constant[name] = next(iter(values))
  parts = shown["caption"].partition(": ")[2]
  caption = dict(p.split(" = ", 1) for p in parts.split(", ") if " = " in p)
  ctx.event("constant", len(constant))
  ctx.event("varying", len(SHARED) - len(constant))
  ctx.check(set(caption) == set(constant), "the caption has the wrong parameters", shown=sorted(caption), want=sorted(constant))
  for name, value in constant.items():
    ctx.check(same(caption[name], value), "the caption has a wrong value", name=name, shown=caption[name], want=value)
  is_validation = lambda c: c.endswith("_pass") or c.startswith("simulated_")
  want = [c for c in summary.columns if c not in constant and (with_validation or not is_validation(c))]
  ctx.check(sorted(columns) == sorted(want), "wrong columns", shown=sorted(columns), want=sorted(want))
  ctx.distinct(len(analyses), state, tuple(columns))
  for id_, cells in zip(shown["index"], shown["cells"]):
    ctx.event("rows")
    a = by_id[id_]
    facts = dict(dataclasses.asdict(a.design), **{
        "minimum_detectable_effect": a.minimum_detectable_effect,
        "relative_minimum_detectable_effect": a.relative_minimum_detectable_effect})
    want = simulations.verdicts(a)
    for name, cell in zip(columns, cells):
      ctx.event("cells")
      if not name.endswith("_pass"):
        ctx.check(cell["style"].get("background-color") not in ("lightgreen", "darkred"),
                  "a cell that is no check has the colour of one", name=name, style=cell["style"])
      if name in facts:
        cell_shows(ctx, cell, facts[name], name)
        continue
      value = want.get(name)
      if name.endswith("_pass"):
        if value is None and want:
          continue  # Too close to the threshold.
        colour = cell["style"].get("background-color")
        ctx.event("unvalidated" if value is None else "passed" if value else "failed")
        ctx.check(colour == {None: None, True: "lightgreen", False: "darkred"}[value], "a check has the wrong colour",
                  name=name, passed=value, style=cell["style"])
      cell_shows(ctx, cell, value, name)
  ctx.sample(designs=len(analyses), state=state, constant=sorted(constant), columns=len(columns))
