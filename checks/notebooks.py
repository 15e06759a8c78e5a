"""E02: the shipped notebooks, cell by cell, on the user's files."""

import ast
import contextlib
import datetime as dt
import itertools
import json
import os
import pathlib
import re
import sys
import tempfile
import types

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # pylint: disable=g-import-not-at-top,g-bad-import-order
import numpy as np
import pandas as pd
import tqdm

from feedx import experiment_analysis as ea
from feedx import experiment_design
from feedx import experiment_simulations as es

from checks import analysis
from checks import display
from checks import lifecycle
from mon import core
from mon import gen
from mon import table

PROPS = {}
DESIGNER, ANALYZER = "01_experiment_designer.ipynb", "02_experiment_analyzer.ipynb"
METRICS = ["clicks", "impressions", "total_cost", "conversions", "total_conversion_value"]

E02 = PROPS["E02"] = core.Property(
    "E02",
    rule="Both notebooks, cell by cell, with their form fields set for random histories and experiments kept in csv files "
    "(with leading lines and separators) or in sheets, and once on their own demo data with their own defaults; designs "
    "that were not validated or that failed their validation. distinct = (history, design, way).",
    require={"workflows": 60, "csv": 20, "sheet": 20, "demo": 1, "exported": 30, "not_validated": 4, "failed": 4, "failed_one": 2, "named": 200,
             "negative": 2, "repeated": 5, "unfinished": 3, "crossover": 6, "regular": 5, "results": 150, "designer_cells": 600, "analyzer_cells": 200})


class Sheets:
  """Google Sheets, of strings."""

  def __init__(self):
    self.books = {}

  def add(self, url, frame):
    self.books[url] = [list(map(str, frame.columns))] + frame.astype(str).values.tolist()

  def module(self):
    store = self

    class Worksheet:

      def __init__(self, url):
        self.url = url

      def get_all_values(self):
        return [list(row) for row in store.books[self.url]]

      def update(self, cells, values):
        corners = re.fullmatch(r"A1:([A-Z])(\d+)", cells)
        if corners is None or len(values) > int(corners.group(2)) or len(values[0]) > ord(corners.group(1)) - 64:
          raise ValueError(f"{cells} does not hold {len(values)} rows of {len(values[0])}")
        store.books[self.url] = [[str(v) for v in row] for row in values]

    class Spreadsheet:

      def __init__(self, url):
        self.url = url
        self.sheet1 = Worksheet(url)

      def worksheet(self, name):
        return Worksheet(self.url + "#" + name)

    class Client:

      def open_by_url(self, url):
        return Spreadsheet(url)

      def create(self, title):
        return Spreadsheet("https://created/" + title)

    module = types.ModuleType("gspread")
    module.Client = Client
    module.authorize = lambda credentials: Client()
    return module


@contextlib.contextmanager
def colab(sheets):
  """What the notebooks find in Colab."""
  names = {n: types.ModuleType(n) for n in ("google", "google.colab", "google.colab.auth", "google.colab.drive", "google.auth")}
  names["google.colab.auth"].authenticate_user = lambda: None
  names["google.colab.drive"].mount = lambda path: None
  names["google.auth"].default = lambda: (None, None)
  names["google"].colab, names["google"].auth = names["google.colab"], names["google.auth"]
  names["google.colab"].auth, names["google.colab"].drive = names["google.colab.auth"], names["google.colab.drive"]
  names["gspread"] = sheets.module()
  names["tqdm.notebook"] = types.ModuleType("tqdm.notebook")
  names["tqdm.notebook"].tqdm, names["tqdm.notebook"].trange = tqdm.tqdm, tqdm.trange
  before = {n: sys.modules.get(n) for n in names}
  attribute = vars(tqdm).get("notebook")
  sys.modules.update(names)
  tqdm.notebook = names["tqdm.notebook"]
  try:
    yield
  finally:
    for n, module in before.items():
      if module is None:
        del sys.modules[n]
      else:
        sys.modules[n] = module
    if attribute is None:
      del tqdm.notebook
    else:
      tqdm.notebook = attribute


def kind_of(source):
  """Which of the alternatives of the notebook a cell is for."""
  if "generate_synthetic_data(" in source or "NamedTemporaryFile" in source:
    return "demo"
  if "load_from_yaml(" in source:
    return "file"
  if "read_csv(" in source or ".to_csv(" in source:
    return "csv"
  if "GSPREAD_CLIENT" in source and "authorize(" not in source:
    return "sheet"
  return None


def run_notebook(ctx, name, kinds, fields, space, before=None, skip=()):
  """Runs the cells, as a user of these alternatives. Returns what was displayed, or what was raised and where."""
  path = pathlib.Path(core.REPO) / "notebooks" / name
  shown = []
  for cell in json.loads(path.read_text())["cells"]:
    source = "".join(cell["source"])
    kind = kind_of(source)
    if cell["cell_type"] != "code" or (kind is not None and kind not in kinds) or any(mark in source for mark in skip):
      continue
    lines = []
    for line in source.split("\n"):
      form = re.match(r"(\w+)\s*=.*#@param", line)
      if line.startswith(("!", "%")):
        continue
      if form and form.group(1) in fields:
        value = fields[form.group(1)]
        line = f"{form.group(1)} = {(value(space) if callable(value) else value)!r}"
      lines.append(line)
    code = ast.parse("\n".join(lines))
    if not code.body:
      continue
    last = code.body.pop() if isinstance(code.body[-1], ast.Expr) else None
    for mark, action in (before or {}).items():
      if mark in source:
        action(space)
    try:
      exec(compile(code, name, "exec"), space)  # pylint: disable=exec-used
      if last is not None:
        shown.append(eval(compile(ast.Expression(last.value), name, "eval"), space))  # pylint: disable=eval-used
    except Exception as e:  # pylint: disable=broad-except
      return shown, (e, source)
    finally:
      plt.close("all")
    ctx.event("designer_cells" if name == DESIGNER else "analyzer_cells")
  return shown, None


def text_of(values):
  return ", ".join(str(v) for v in values)


def save(rng, frame, way, place, name, sheets, header, separator):
  """Puts a frame where the notebook reads it. Returns the place."""
  if way == "sheet":
    sheets.add("https://" + name, frame)
    return "https://" + name
  path = os.path.join(place, name + ".csv")
  frame = frame.copy()
  if separator:
    for column in frame.columns:
      if frame[column].dtype == float:
        frame[column] = [f"{v:,.14f}" if gen.chance(rng, 0.9) else repr(v) for v in frame[column].tolist()]
  with open(path, "w") as f:
    f.write("".join(f"Report line {k}\n" for k in range(header)))
    frame.to_csv(f, index=False)
  return path


def judge_designs(ctx, space):
  designs = space["experiment_designs"]
  ids = [d.design_id for d in designs]
  ctx.equal(sorted(space["summary_data"].index), sorted(ids), "the comparison is not of the generated designs")
  effects = space["summary_data"]["relative_minimum_detectable_effect"].to_numpy(float)
  ctx.check(bool(np.all(np.diff(effects) >= 0)), "the comparison is not sorted", effects=effects)


def judge_analysis(ctx, space, shown, design, weekly):
  """What the second notebook shows, from its results."""
  results = space["experiment_results"]
  tables = [table.read(s) for s in shown if hasattr(s, "to_html") and not isinstance(s, pd.DataFrame)]
  ctx.equal(len(tables), 2, "not two tables of results")
  # There is no test of what is always the same.
  tested = results["p_value"].notna().to_numpy()
  ctx.equal(tables[0]["index"], list(results.index), "not one row per metric, in order")
  tables[0]["index"] = [i for i, t in zip(tables[0]["index"], tested) if t]
  tables[0]["cells"] = [c for c, t in zip(tables[0]["cells"], tested) if t]
  display.judge_table(ctx, results[tested], {}, tables[0])
  whole = results.loc[results.index.isin(["Clicks", "Impressions", "Cost", "Conversions", "Conversion value"])]
  display.judge_table(ctx, whole, dict(include_yearly_projected_effect=True, include_relative_effect=False,
                                       include_absolute_effect=False), tables[1])
  counts = [s for s in shown if isinstance(s, pd.DataFrame) and s.shape[1] == 1 and s.index.name == "time_period"]
  if counts:
    want = {p: c * (1 if weekly else 7) for p, c in lifecycle.ref.period_weeks(design).items()}
    if design.is_crossover and design.crossover_washout_weeks:
      want.update({f"washout_{k}": design.crossover_washout_weeks * (1 if weekly else 7) for k in (1, 2)})
    ctx.equal({str(k): int(v) for k, v in counts[0].iloc[:, 0].items()}, {k: v for k, v in want.items() if v},
              "wrong numbers of days per period")
    ctx.event("period_counts")


CHECKS = ["null_p_value", "false_positive_rate", "power", "aa_point_estimate", "ab_point_estimate"]


def simulated(ctx, analysis_, broken):
  """Replaces the simulations of a validated design by ones that fail this check alone."""
  n = 400
  mde = analysis_.minimum_detectable_effect
  p_values = (np.arange(n) + 0.5) / n
  noise = np.where(np.arange(n) % 2 == 0, 1.0, -1.0) * mde
  found = np.where(np.arange(n) < n * analysis_.design.power, 0.0, 1.0)
  off = dict.fromkeys(CHECKS, 0.0) | ({broken: 1.0} if broken else {})
  if off["null_p_value"]:
    p_values = np.where(p_values < 0.5, 0.5 - 1e-3, 1.0)
  if off["false_positive_rate"]:
    alpha = analysis_.design.alpha
    p_values = np.where((p_values > alpha) & (p_values < 2 * alpha), alpha / 2, p_values)
  if off["power"]:
    found = np.where(np.arange(n) < n * (analysis_.design.power - 0.2), 0.0, 1.0)
  def frame(old, p, differences):
    rows = old.iloc[np.arange(n) % len(old)].reset_index(drop=True)
    return rows.assign(p_value=p, absolute_difference=differences, is_significant=p < analysis_.design.alpha)
  analysis_.aa_simulation_results = frame(analysis_.aa_simulation_results, p_values, noise + off["aa_point_estimate"] * mde)
  analysis_.ab_simulation_results = frame(
      analysis_.ab_simulation_results, found, noise + mde * (1.0 - 0.5 * off["ab_point_estimate"]))
  if broken:
    # The other checks pass.
    for name in CHECKS:
      passed = getattr(analysis_, name + "_robustness_check_pass")
      ctx.equal(bool(passed), name != broken, "wrong verdict of a robustness check", check=name, broken=broken)



NAMED = {
    # What a name means, whatever the notebook's list says.
    "Clicks": ("clicks", None), "Impressions": ("impressions", None), "Cost": ("total_cost", None),
    "Conversions": ("conversions", None), "Conversion value": ("total_conversion_value", None),
    "At least one impression": ("at_least_one_impression", None), "At least one click": ("at_least_one_click", None),
    "At least one conversion": ("at_least_one_conversion", None), "CTR": ("clicks", "impressions"),
    "CPC": ("total_cost", "clicks"), "ROAS": ("total_conversion_value", "total_cost")}


def judge_shipped(ctx, space):
  """The metrics of the notebook are what they are called; what is only 0 or 1 is not trimmed."""
  for m in space["metrics"]:
    if m.name in NAMED:
      ctx.equal((m.column, m.denominator_column), NAMED[m.name], "a metric is not what it is called", metric=m.name)
      ctx.equal(m.trimming_quantile_override, 0.0 if m.column.startswith("at_least_one") else None,
                "not the documented trimming", metric=m.name)
      ctx.event("named")


def shipped_metrics(space):
  return [ea.Metric(m.name, m.column, m.denominator_column, m.trimming_quantile_override) for m in space["metrics"]]


def judge_candidates(ctx, space, start, candidates, crossover, regular, washout, chosen):
  """The compared designs are those of the form, on all the weeks the history allows."""
  want = []
  for combination in itertools.product(*candidates.values()):
    for is_crossover in [True] * crossover + [False] * regular:
      params = dict(zip(candidates, combination), n_items_before_trimming=start["n"], is_crossover=is_crossover,
                    crossover_washout_weeks=washout if is_crossover else None)
      if not lifecycle.ref.design_problems(params):
        want.append(tuple(map(float, combination)) + (is_crossover,))
  designs = space["experiment_designs"]
  ctx.equal({d.crossover_washout_weeks for d in designs if d.is_crossover} - {washout}, set(), "not the washout of the form")
  got = [tuple(float(getattr(d, name)) for name in candidates) + (bool(d.is_crossover),) for d in designs]
  ctx.equal(sorted(got), sorted(want), "not the designs of the form")
  ctx.equal({d.primary_metric for d in designs}, {start["metric"]}, "not the chosen primary metric")
  weeks = space["historical_data"]["week_id"]
  first = int(weeks.min()) + max(candidates["pretest_weeks"])
  design = designs[chosen % len(designs)]
  if start["sparse"] and design.n_items_after_post_trim < design.n_items_before_trimming:
    return  # Which of equal items are trimmed is random.
  fresh = es.SimulationAnalysis(
      design=design, historical_data=space["historical_data"].copy(), item_id_column="item_id", week_id_column="week_id",
      minimum_start_week_id=first, rng=np.random.default_rng(0))
  fresh.estimate_minimum_detectable_effect()
  ctx.close(space["summary_data"].loc[design.design_id, "minimum_detectable_effect"], fresh.minimum_detectable_effect,
            "not the detectable effect of the design over all possible starts", rtol=1e-9)


@E02.scenario(quick=40, thorough=300)
def own_data(ctx, rng):
  way = gen.pick(rng, ["csv", "sheet"])
  names = dict(item="item_id" if way == "csv" else "Item ID", date=gen.pick(rng, ["Day", "date", "data_date"]),
               **{m: gen.pick(rng, [m, m.title(), "the " + m]) for m in METRICS})
  start = lifecycle.inputs(rng, names, gen.pick(rng, ["margin", "Gross Margin", "all conv. (view)"]))
  start["metrics"] = METRICS
  c = start["columns"]
  negative = start["primary"] == "other" and gen.chance(rng, 0.6)
  if negative:
    start["values"][rng.permutation(start["n"])[: int(rng.integers(1, 5))]] *= -1
    start["history"] = lifecycle.raw_frame(rng, start["ids"], start["days"], {start["metric"]: start["values"]},
                                           start["present"], c, start["numeric"])
  crossover = gen.chance(rng, 0.65)
  pretest = gen.pick(rng, [[1], [2], [1, 2], [0]])
  trims = lambda: gen.pick(rng, [[0.0], [0.0, 0.05], [0.03]]) if 0 not in pretest else [0.0]
  runtime = gen.pick(rng, [[4, 6], [6]]) if crossover else gen.pick(rng, [[2], [3, 4], [1]])
  candidates = dict(runtime_weeks=runtime, pretest_weeks=pretest, pre_trim_top_percentile=trims(),
                    pre_trim_bottom_percentile=trims(), post_trim_percentile=gen.pick(rng, [[0.0], [0.02], [0.0, 0.05]]))
  regular = not crossover or gen.chance(rng, 0.5)
  washout = gen.pick(rng, [1, 1, 2])
  guard = gen.pick(rng, ["fine", "fine", "fine", "not_validated", "failed", "one_failed", "none_failed"])
  broken = gen.pick(rng, CHECKS) if guard == "one_failed" else None
  separator = gen.pick(rng, ["", ","])
  header = int(rng.integers(0, 4))
  chosen = int(rng.integers(0, 1000))
  sheets = Sheets()
  ctx.event(way)
  ctx.event("workflows")
  with tempfile.TemporaryDirectory() as place, core.captured(), colab(sheets):
    where = save(rng, start["history"], way, place, "history", sheets, header, separator)
    def selected(space):
      designs = space["experiment_designs"]
      return designs[chosen % len(designs)].design_id
    def validated(space):
      ids = [d.design_id for d in space["experiment_designs"]]
      if guard == "not_validated" and len(ids) > 1:
        ids.remove(selected(space))
      else:
        ids = [selected(space)]
      return " , ".join(ids[:2]) + "\t"
    fields = dict(
        RANDOM_SEED=int(rng.integers(2**31)), google_sheet_url=where, csv_path=where, worksheet_name="",
        date_column_name=c["date"], item_id_column_name=c["item"], primary_metric=start["primary"],
        primary_metric_column_name=c[start["metric"]], item_sample_fraction=1.0, header_rows=header,
        thousands_separator=separator, skip_validation_checks="", candidate_runtime_weeks=text_of(runtime),
        candidate_pretest_weeks=text_of(pretest),
        candidate_pre_trim_top_percentiles=text_of(candidates["pre_trim_top_percentile"]),
        candidate_pre_trim_bottom_percentiles=text_of(candidates["pre_trim_bottom_percentile"]),
        candidate_post_trim_percentiles=text_of(candidates["post_trim_percentile"]), crossover_design_allowed=crossover,
        traditional_design_allowed=regular, crossover_washout_weeks=washout,
        n_simulations_per_design=4, design_ids_for_validation=validated, force_revalidate=gen.chance(rng, 0.3),
        selected_design_id=selected, design_yaml_file_name=os.path.join(place, "design.yaml"),
        treatment_assignment_sheet_name="assignment", treatment_assignment_csv_path=os.path.join(place, "assignment.csv"))
    def threshold(space):
      if guard in ("one_failed", "none_failed"):
        simulated(ctx, space["selected_design_analysis"], broken)
      else:
        space["selected_design_analysis"].robustness_p_value_threshold = 2.0 if guard == "failed" else 0.0
    if negative:
      _, stopped = run_notebook(ctx, DESIGNER, {way}, fields, {})
      ctx.check(stopped is not None and isinstance(stopped[0], ValueError) and "prepare_and_validate" in stopped[1],
                "negative values were not found", stopped=repr(stopped)[:500])
      fields["skip_validation_checks"] = gen.pick(rng, ["all_metrics_are_non_negative", " all_metrics_are_non_negative , "])
      ctx.event("negative")
    space = {}
    # There is nothing to plot of a design that was not validated.
    shown, stopped = run_notebook(ctx, DESIGNER, {way}, fields, space, {"perform_treatment_assignment(": threshold},
                                  skip=["plot_deep_dive("] if guard == "not_validated" else [])
    if stopped is not None and "perform_treatment_assignment(" not in stopped[1]:
      raise stopped[0]
    judge_designs(ctx, space)
    judge_candidates(ctx, space, start, candidates, crossover, regular, washout, chosen)
    if gen.chance(rng, 0.2):
      # "If you run it again with the same data and same seed, you will get exactly the same results."
      again = {}
      run_notebook(ctx, DESIGNER, {way}, fields, again, {"perform_treatment_assignment(": threshold},
                   skip=["plot_", "print_metric_summary("])
      for name in ("historical_data", "summary_data"):
        ctx.equal(gen.frame_fingerprint(again[name]), gen.frame_fingerprint(space[name]), f"{name} is not the same again")
      ctx.event("repeated")
    verdict = space["selected_design_analysis"].all_robustness_checks_pass
    if stopped is not None:
      if "sample_ratio" in str(stopped[0]):
        ctx.event("unbalanced")  # By chance, about once in a thousand.
        return
      ctx.check(isinstance(stopped[0], ValueError) and verdict is not True, "a validated design was not exported",
                error=repr(stopped[0])[:500], verdict=verdict)
      ctx.event("not_validated" if verdict is None else "failed")
      if guard == "one_failed":
        ctx.event("failed_one")
      ctx.equal(os.path.exists(fields["design_yaml_file_name"]), False, "a design that was not validated was exported")
      return
    ctx.check(verdict is not None and bool(verdict) and broken is None, "a design was exported that did not pass its validation", verdict=verdict)
    ctx.event("exported")
    # What the second notebook gets are the files.
    loaded = experiment_design.ExperimentDesign.load_from_yaml(fields["design_yaml_file_name"])
    ctx.equal(loaded.design_id, selected(space), "another design was exported")
    ctx.event("crossover" if loaded.is_crossover else "regular")
    ctx.distinct(start["n"], start["first"], loaded.design_id, way)
    if way == "csv":
      items = pd.read_csv(fields["treatment_assignment_csv_path"])
      ctx.equal(list(items.columns), ["item_id", "treatment_assignment"], "wrong columns in the exported assignment")
      assigned = fields["treatment_assignment_csv_path"]
    else:
      assigned = "https://created/assignment"
      rows = sheets.books[assigned]
      ctx.equal(rows[0], ["Item ID", "Treatment Assignment"], "wrong header in the exported assignment")
      items = pd.DataFrame.from_records(rows[1:], columns=["item_id", "treatment_assignment"])
    lifecycle.judge_items(ctx, start, loaded, items)

    e = lifecycle.make_experiment(rng, start, loaded, items, zeros=False)
    concluded = gen.chance(rng, 0.75)
    if not concluded:
      # Some weeks into the experiment.
      weeks = int(rng.integers(1, loaded.runtime_weeks + 1))
      seen = [d for d in e["days"] if d < e["begin"] + dt.timedelta(weeks=weeks)]
      e["performance"] = e["performance"][e["performance"][c["date"]] <= seen[-1].isoformat()]
      e.update(days=seen, filled={m: v[:, : len(seen)] for m, v in e["filled"].items()})
      ctx.event("unfinished")
    performance = save(rng, e["performance"], way, place, "performance", sheets, header, separator)
    fields = dict(
        design_yaml_file_path=fields["design_yaml_file_name"], performance_google_sheet_url=performance,
        performance_worksheet_name="", treatment_assignment_google_sheet_url=assigned, treatment_assignment_worksheet_name="",
        performance_file_path=performance, treatment_assignment_file_path=assigned, performance_header_rows=header,
        treatment_assignment_header_rows=0, date_column_name=c["date"], item_id_column_name=c["item"],
        other_metrics_column_names=start["other"] if start["primary"] == "other" or gen.chance(rng, 0.5) else "",
        treatment_assignment_column="treatment_assignment" if way == "csv" else "Treatment Assignment",
        experiment_start_date=e["begin"].isoformat(), experiment_has_concluded=concluded, thousands_separator=separator,
        skip_validation_checks="", apply_cuped_adjustment_to_plots=loaded.pretest_weeks > 0,
        **{m + "_column_name": c[m] for m in METRICS})
    space = {}
    def more_metrics(space):
      # As the notebook says: more metrics are added to its list.
      if loaded.primary_metric not in METRICS:
        space["metrics"].append(ea.Metric(name=loaded.primary_metric, column=loaded.primary_metric))
    shown, stopped = run_notebook(ctx, ANALYZER, {way, "file"}, fields, space, {"analyze_experiment(": more_metrics},
                                  skip=[] if concluded else ["analyze_experiment(", "experiment_results"])
    if stopped is not None:
      raise stopped[0]
    ctx.equal(space["design"], loaded, "the analysis is of another design")
    e["filled"] = {m: v for m, v in e["filled"].items() if m in space["metric_columns"]}
    lifecycle.judge_data(ctx, e, loaded, space["daily_experiment_data"])
    if not concluded:
      return
    for metric in ("click", "impression", "conversion"):
      e["rows"]["at_least_one_" + metric] = (e["rows"][metric + "s"] > 0).astype(float)
    about = dict(data=e["rows"], design=loaded, treatment=e["arms"], names=dict(item="item", week="week"),
                 metrics=e["metrics"] + ["at_least_one_impression", "at_least_one_conversion"])
    # There is no test of what is always the same.
    analysed = [m for m in shipped_metrics(space) if e["rows"][m.column].min() < e["rows"][m.column].max()]
    judge_shipped(ctx, space)
    analysis.judge_results(ctx, about, analysed, space["experiment_results"].loc[[m.name for m in analysed]])
    judge_analysis(ctx, space, shown, loaded, start["weekly"])
  ctx.sample(design=loaded.design_id, way=way, items=start["n"], crossover=loaded.is_crossover, header=header)


@E02.scenario(quick=1, thorough=10)
def demo_data(ctx, rng):
  """The notebooks as they are shipped, on their own data."""
  ctx.event("demo")
  ctx.event("workflows")
  sheets = Sheets()
  with tempfile.TemporaryDirectory() as place, core.captured(), colab(sheets):
    fields = dict(RANDOM_SEED=int(rng.integers(2**31)), n_simulations_per_design=3,
                  design_yaml_file_name=os.path.join(place, "design.yaml"),
                  treatment_assignment_csv_path=os.path.join(place, "assignment.csv"))
    def accept(space):
      space["selected_design_analysis"].robustness_p_value_threshold = 0.0
    space = {}
    _, stopped = run_notebook(ctx, DESIGNER, {"demo"}, fields, space, {"perform_treatment_assignment(": accept})
    if stopped is not None and "sample_ratio" in str(stopped[0]):
      return
    if stopped is not None:
      raise stopped[0]
    judge_designs(ctx, space)
    ctx.event("exported")
    loaded = experiment_design.ExperimentDesign.load_from_yaml(fields["design_yaml_file_name"])
    ctx.equal(loaded.design_id, space["selected_design_id"], "another design was exported")
    raw = space["raw_data"]
    grid = raw.pivot(index="item_id", columns="date", values="clicks").sort_index(axis=1)
    values = grid.to_numpy(float)
    lifecycle.judge_items(
        ctx, dict(n=len(grid), ids=list(grid.index), values=values, present=np.ones_like(values, dtype=bool), weekly=False,
                  weeks=values.shape[1] // 7), loaded, space["experiment_items"])

    space = {}
    shown, stopped = run_notebook(ctx, ANALYZER, {"demo"}, dict(random_seed=int(rng.integers(2**31))), space)
    if stopped is not None:
      raise stopped[0]
    data, design = space["daily_experiment_data"], space["design"]
    ctx.event("crossover" if design.is_crossover else "regular")
    begin = dt.date.fromisoformat(space["experiment_start_date"])
    rows = data.rename(columns={"item_id": "item"}).assign(week=[lifecycle.ref.week_of(lifecycle.ref.as_date(d), begin) for d in data["date"]])
    analysed = shipped_metrics(space)
    about = dict(data=rows, design=design, names=dict(item="item", week="week"), metrics=list(space["metric_columns"]),
                 treatment=dict(zip(data["item_id"], data["treatment_assignment"])))
    judge_analysis(ctx, space, shown, design, False)
    judge_shipped(ctx, space)
    # Whole numbers have ties: only what is not trimmed is unique.
    untrimmed = [m for m in analysed if m.trimming_quantile_override == 0.0 or design.post_trim_percentile == 0]
    analysis.judge_results(ctx, about, untrimmed, space["experiment_results"].loc[[m.name for m in untrimmed]])
  ctx.sample(way="demo", design=loaded.design_id)
