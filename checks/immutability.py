"""P10: a guard around every entry point, under the workloads of all other properties.

The guard replaces the functions of feedx (in this process only). A call from outside
("entry") has all its arguments fingerprinted before and after it; calls inside of an
entry are only counted, and in some cases one of them is made to fail, so that entries
are also seen to fail midway.
"""

import contextlib
import functools
import hashlib
import inspect

import numpy as np
import pandas as pd

from feedx import data_preparation
from feedx import experiment_analysis
from feedx import experiment_design
from feedx import experiment_simulations
from feedx import plotting
from feedx import statistics

from checks import analysis
from checks import display
from checks import pipelines
from checks import plots
from checks import preparation
from checks import randomise
from checks import simulations
from checks import synthetic
from checks import trimmed
from checks import ttests
from checks import validation
from mon import core
from mon import gen

PROPS = {}
MODULES = [data_preparation, experiment_analysis, experiment_design, experiment_simulations, plotting, statistics]

# Helpers that add a column to the frame they are given, by design. They are no entry points
# of the pipeline; the entry points use them on their own copies.
ADDING = {"add_week_id_and_week_start", "add_time_period_column", "add_at_least_one_metrics",
          "apply_synthetic_treatment_effect", "apply_random_treatment_assignment",
          "add_relative_effects_to_synthetic_data_for_demo"}

WORKLOADS = {
    "preparation": [("P01", "rename_and_parse"), ("P01", "rejected_arguments"), ("P02", "fill"), ("P02", "missing_columns"),
                    ("P03", "weeks_and_totals"), ("P03", "irregular_dates"), ("P09", "trim"), ("P09", "invalid_fractions"),
                    ("P14", "flags")],
    "pipelines": [("P04", "prepared_history"), ("P04", "downsample"), ("P04", "rejected"), ("P05", "prepared_experiment"),
                  ("P05", "prepared_experiment"), ("P05", "independent_of_order_and_junk"), ("P05", "rejected")],
    "validation": [("P06", "historical"), ("P06", "wrong_types"), ("P07", "experiment"), ("P07", "experiment"),
                   ("P07", "sample_ratio"), ("P08", "skipped_checks"), ("P08", "unknown_names"),
                   ("P08", "pipelines_unchanged")],
    "randomisation": [("R03", "randomised_list"), ("R03", "randomised_list"), ("R03", "rejected_calls")],
    "analysis": [("A02", "pivoted"), ("A02", "pivoted"), ("A03", None), ("A04", None), ("A05", None), ("A06", "analysed_tables"),
                 ("A06", "random_tables")],
    "simulations": [("M03", "estimated"), ("M03", "estimated"), ("M04", "validated"), ("M05", "summaries"),
                    ("M06", "comparisons"), ("M02", "range_of_starts")],
    "plots": [("V01", "histories"), ("V01", "deep_dives"), ("V01", "unvalidated"), ("V02", "over_time"), ("V02", "over_time"),
              ("V02", "without_pretest"), ("V03", "effects"), ("V03", "missing_primary")],
    "statistics": [("S01", "definitions"), ("S02", "adjustment"), ("S03", "two_samples"), ("S03", "rejected"),
                   ("S04", "paired_samples"), ("S07", "delta_method"), ("S08", "arrays"), ("P13", "effects")],
}
ALL = {}
for module in (analysis, display, pipelines, plots, preparation, randomise, simulations, synthetic, trimmed, ttests, validation):
  ALL.update(module.PROPS)


class InjectedFault(Exception):
  pass


def fingerprint(x, depth=0):
  """Of everything a caller could see of an argument."""
  if isinstance(x, pd.DataFrame):
    return gen.frame_fingerprint(x)
  if isinstance(x, pd.Series):
    return gen.frame_fingerprint(x.to_frame()), str(x.name)
  if isinstance(x, pd.Index):
    return repr(x.tolist())
  if isinstance(x, np.ndarray):
    data = repr(x.tolist()) if x.dtype == object else np.ascontiguousarray(x).tobytes()
    return x.shape, str(x.dtype), hashlib.md5(data if isinstance(data, bytes) else data.encode()).hexdigest()
  if isinstance(x, experiment_simulations.SimulationAnalysis):
    return fingerprint([x.historical_data, x.aa_simulation_results, x.ab_simulation_results], depth + 1)
  if isinstance(x, dict):
    return [(repr(k), fingerprint(v, depth + 1)) for k, v in x.items()]
  if isinstance(x, (list, tuple)) and depth < 3:
    return type(x).__name__, [fingerprint(v, depth + 1) for v in x]
  if isinstance(x, (str, int, float, bool, np.generic, set, frozenset)) or x is None:
    return repr(x)
  return None  # Designs and random states are no data.


class Guard:
  """Watches the entries into feedx."""

  def __init__(self, fail_at=None):
    self.depth = 0
    self.inner = 0
    self.fail_at = fail_at
    self.entries = []  # (name, raised, injected)
    self.broken = None

  def wrap(self, name, fn):
    signature = inspect.signature(fn)

    @functools.wraps(fn)
    def watched(*args, **kwargs):
      if self.depth:
        self.inner += 1
        if self.inner == self.fail_at:
          raise InjectedFault(name)
        return fn(*args, **kwargs)
      if name.startswith("_") and name != "__init__":
        return fn(*args, **kwargs)
      try:
        bound = dict(signature.bind(*args, **kwargs).arguments)
      except TypeError:
        return fn(*args, **kwargs)
      # What the methods of an analysis record in it is their purpose.
      if name == "__init__":
        bound.pop("self", None)
      if name in ("estimate_minimum_detectable_effect", "validate_design"):
        bound["self"] = [bound["self"].historical_data]
      before = {k: fingerprint(v) for k, v in bound.items()}
      self.depth, self.inner, raised = 1, 0, None
      try:
        return fn(*args, **kwargs)
      except Exception as e:
        raised = e
        raise
      finally:
        self.depth = 0
        self.entries.append((name, raised is not None, isinstance(raised, InjectedFault)))
        changed = [k for k, v in bound.items() if fingerprint(v) != before[k]]
        if changed and name not in ADDING and self.broken is None:
          self.broken = dict(function=name, arguments=changed, raised=repr(raised)[:300])
    return watched


@contextlib.contextmanager
def guarded(guard):
  replaced = []
  try:
    for module in MODULES:
      for name, fn in list(vars(module).items()):
        if inspect.isfunction(fn) and fn.__module__ == module.__name__:
          replaced.append((module, name, fn))
          setattr(module, name, guard.wrap(name, fn))
    analysis_class = experiment_simulations.SimulationAnalysis
    for name in ("__init__", "estimate_minimum_detectable_effect", "validate_design", "summary_dict"):
      fn = vars(analysis_class)[name]
      replaced.append((analysis_class, name, fn))
      setattr(analysis_class, name, guard.wrap(name, fn))
    yield
  finally:
    for owner, name, fn in replaced:
      setattr(owner, name, fn)


P10 = PROPS["P10"] = core.Property(
    "P10",
    rule="The workloads of the other properties (clean and faulty data of every kind, every entry point), with a "
    "guard that fingerprints every argument of every call from outside, before and after. In a part of the cases "
    "one random inner call is made to fail. distinct = (entry, how it ended, case).",
    require={"entries": 1500, "returned": 800, "raised": 200, "injected": 40, "preparation": 20, "pipelines": 20,
             "validation": 20, "randomisation": 20, "analysis": 20, "simulations": 20, "plots": 20, "statistics": 20})

ENTRIES = ["prepare_and_validate_historical_data", "prepare_and_validate_experiment_data", "perform_treatment_assignment",
           "validate_historical_data", "validate_experiment_data", "trim_outliers", "downsample_items",
           "fill_missing_rows_with_zeros", "group_data_to_complete_weeks", "standardize_column_names_and_types",
           "validate_no_sample_ratio_mismatch", "pivot_time_assignment", "analyze_experiment", "analyze_single_metric",
           "format_experiment_analysis_results_dataframe", "estimate_minimum_detectable_effect", "validate_design",
           "make_analysis_summary_dataframe", "format_analysis_summary_dataframe", "plot_metric_history",
           "plot_deep_dive", "plot_metric_over_time", "plot_effects", "yuens_t_test_ind", "yuens_t_test_paired",
           "apply_cuped_adjustment", "__init__"]
P10.require.update({f"entry {name}": 1 for name in ENTRIES})


def workload(ctx, rng, fail_at):
  kind = gen.pick(rng, list(WORKLOADS))
  prop, name = gen.pick(rng, WORKLOADS[kind])
  scenarios = {s[0]: s[1] for s in ALL[prop].scenarios}
  name = name or gen.pick(rng, sorted(scenarios))
  guard = Guard(fail_at)
  ended = "quiet"
  with guarded(guard):
    try:
      scenarios[name](core.Ctx(), rng)
    except core.Violation:
      ended = "another property is violated"  # Not decided here.
    except Exception:  # pylint: disable=broad-except
      ended = "failed"
  ctx.event(kind)
  ctx.event(f"workload {ended}")
  ctx.event("monitor_checks", len(guard.entries))
  for entry, raised, injected in guard.entries:
    ctx.event("entries")
    ctx.event("injected" if injected else "raised" if raised else "returned")
    ctx.event(f"entry {entry}")
    ctx.distinct(entry, raised, injected, ctx.events["entries"])
  if guard.broken is not None:
    ctx.fail("an argument was modified", workload=f"{prop} {name}", **guard.broken)
  ctx.sample(workload=f"{prop} {name}", entries=len(guard.entries), ended=ended)


@P10.scenario(quick=960, thorough=6000)
def entries(ctx, rng):
  workload(ctx, rng, None)


@P10.scenario(quick=400, thorough=6000)
def failing_entries(ctx, rng):
  workload(ctx, rng, int(gen.pick(rng, [1, 2, 3, 5, 8, int(rng.integers(1, 60))])))
