"""D01-D04: designs are valid, survive saving, are identified and described."""

import copy
import dataclasses
import json
import os
import pathlib
import re
import subprocess
import sys
import tempfile

import numpy as np
import pandas as pd
import yaml

from feedx import experiment_analysis
from feedx import experiment_design

from mon import core
from mon import gen
from mon import ref

ExperimentDesign = experiment_design.ExperimentDesign
PROPS = {}

# ------------------------------------------------------------------------ D01
D01 = PROPS["D01"] = core.Property(
    "D01",
    rule="Parameter combinations at and around every constraint's boundary, and "
    "perturbations of valid designs; distinct = distinct parameter tuples.",
    require={"accepted": 300, "rejected": 300, "counts_checked": 300,
             "boundary_sum": 20, "boundary_items": 20, "boundary_washout": 20},
    assumptions=["Parameters have their documented types."])


def _judge_design(ctx, params):
  problems = ref.design_problems(params)
  ctx.distinct(sorted(params.items(), key=str))
  status, result = core.outcome(ExperimentDesign, **params)
  if problems:
    ctx.event("rejected")
    for problem in problems:
      ctx.event("rejected: " + problem)
    ctx.check(status == "error", "an invalid design was accepted",
              params=params, problems=problems)
    ctx.check(isinstance(result, ValueError), "an invalid design raised something else"
              " than a ValueError", params=params, error=repr(result))
    return None
  ctx.event("accepted")
  ctx.check(status == "ok", "a valid design was rejected", params=params, error=repr(result))
  want = ref.design_counts(
      params["n_items_before_trimming"], params["pre_trim_top_percentile"],
      params["pre_trim_bottom_percentile"], params["post_trim_percentile"])
  ctx.event("counts_checked")
  ctx.equal((result.n_items_after_pre_trim, result.n_items_after_post_trim), want,
            "wrong item counts after trimming", params=params)
  for name, value in params.items():
    ctx.equal(getattr(result, name), value, f"the design changed its {name}", params=params)
  return result


@D01.scenario(quick=800, thorough=40000)
def boundaries(ctx, rng):
  frac = lambda: gen.pick(rng, [0.0, 0.0, 0.1, 0.25, 0.3, 0.5, 0.7, 0.75, 0.9, 0.99, 1.0,
                                -0.1, -1e-9, 1e-9, 0.29, 0.499999, 0.50001])
  top = frac()
  bottom = gen.pick(rng, [frac(), 1.0 - top if top >= 0 else 0.0, 0.0])
  if top + bottom == 1.0:
    ctx.event("boundary_sum")
  runtime = int(rng.integers(-1, 9))
  washout = gen.pick(rng, [None, -1, 0, 1, 2, 3, 4, runtime // 2, (runtime - 1) // 2])
  crossover = gen.chance(rng, 0.6)
  if crossover and washout is not None and runtime == 2 * washout:
    ctx.event("boundary_washout")
  post = gen.pick(rng, [0.0, 0.1, 0.25, 0.4, 0.49, 0.5, 0.5 - 1e-9, -1e-9, 0.51])
  n = int(gen.pick(rng, [50, 51, 52, 60, 100, 101, 102, 500, 1000, 5100]))
  if gen.chance(rng, 0.4):
    # Put the number of items left right at the limit.
    for candidate in range(51, 6000):
      if ref.design_counts(candidate, top, bottom, post)[1] in (50, 51):
        n = candidate - int(rng.integers(0, 2))
        ctx.event("boundary_items")
        break
  _judge_design(ctx, dict(
      n_items_before_trimming=n, runtime_weeks=runtime, primary_metric="clicks",
      pretest_weeks=int(rng.integers(-1, 4)), is_crossover=crossover,
      pre_trim_top_percentile=top, pre_trim_bottom_percentile=bottom,
      post_trim_percentile=post, crossover_washout_weeks=washout))


@D01.scenario(quick=800, thorough=40000)
def perturbed_valid_designs(ctx, rng):
  params = gen.design_params(rng)
  _judge_design(ctx, params)
  name, values = gen.pick(rng, [
      ("runtime_weeks", [0, -1, 1, 2, 3, 5]), ("pretest_weeks", [0, -1, 1]),
      ("is_crossover", [True, False]), ("crossover_washout_weeks", [None, 0, -1, 1, 2, 5]),
      ("pre_trim_top_percentile", [-0.01, 0.0, 0.5, 0.95, 1.0, 1e-9, 1e-4, -1e-9]),
      ("pre_trim_bottom_percentile", [-0.01, 0.0, 0.5, 0.95, 1.0, 1e-9, 1e-4, -1e-9]),
      ("post_trim_percentile", [-0.01, 0.0, 0.49, 0.5, 0.6, 1e-9, -1e-9]),
      ("n_items_before_trimming", [51, 50, 55, 0, 10]),
  ])
  changed = dict(params, **{name: gen.pick(rng, values)})
  design = _judge_design(ctx, changed)
  if design is not None:
    # Copies made with other values are validated too.
    status, _ = core.outcome(dataclasses.replace, design, runtime_weeks=0)
    ctx.check(status == "error", "a copy with invalid values was accepted", params=changed)
    ctx.sample(params=changed, after_post_trim=design.n_items_after_post_trim)


@D01.scenario(quick=200, thorough=10000)
def count_arithmetic(ctx, rng):
  """Many item counts for inexact fractions: every floor must be right."""
  top, bottom = round(float(rng.uniform(0, 0.4)), 3), round(float(rng.uniform(0, 0.4)), 3)
  post = round(float(rng.uniform(0, 0.4)), 3)
  for n in rng.integers(300, 100000, 20):
    _judge_design(ctx, dict(
        n_items_before_trimming=int(n), runtime_weeks=4, primary_metric="clicks",
        pretest_weeks=2, is_crossover=False, pre_trim_top_percentile=top,
        pre_trim_bottom_percentile=bottom, post_trim_percentile=post))


# ------------------------------------------------------------------------ D02
D02 = PROPS["D02"] = core.Property(
    "D02",
    rule="Valid designs with hostile strings, salts, floats and numpy scalars written to "
    "and read from scratch files; single-field tampering of the files. distinct = "
    "distinct (design, tampering).",
    require={"overwritten": 100, "round_trips": 200, "tampered_counts": 100, "tampered_params": 100,
             "numpy_values": 50},
    assumptions=["File system writes succeed."])

STRINGS = ["clicks", "yes", "null", "~", "1e5", "007", "1", "true", "a: b", "#x", "é",
           "- a", "{x}", "[1]", "'", '"', "a\nb", " lead", "trail ", "%s", "\t", "0x1F",
           "2023-01-01", "12:30", "=", "@", "!", "&a", "*a", "|", ">", "日本", "\\n"]


@D02.scenario(quick=400, thorough=8000)
def round_trip(ctx, rng):
  params = gen.design_params(rng, metric=gen.pick(rng, STRINGS))
  if gen.chance(rng, 0.6):
    params["coinflip_salt"] = gen.pick(rng, STRINGS + ["%x" % rng.integers(2**40), "12345678", "1e10"])
  if gen.chance(rng, 0.3):
    params["alpha"] = float(gen.pick(rng, [1e-12, 1 / 3, 0.1 + 0.2, 5e-324, 0.05]))
    params["pre_trim_top_percentile"] *= 1 / 3
    params["power"] = float(rng.random())
  design = ExperimentDesign(**params)
  if gen.chance(rng, 0.4):
    # Grids made with numpy: the values must survive all the same.
    numpy_params = {
        k: (np.bool_(v) if isinstance(v, bool) else np.int64(v) if isinstance(v, int)
            else np.float64(v) if isinstance(v, float) else v)
        for k, v in params.items() if gen.chance(rng, 0.6)}
    design = ExperimentDesign(**dict(params, **numpy_params))
    ctx.event("numpy_values", len(numpy_params) > 0)
  before = dataclasses.asdict(design)
  with tempfile.TemporaryDirectory() as folder:
    path = str(pathlib.Path(folder) / "design.yaml")
    if gen.chance(rng, 0.5):
      # The file exists already, with another design or something longer in it.
      ctx.event("overwritten")
      if gen.chance(rng, 0.5):
        gen.design(rng, metric="a much longer name of a metric, " * 3).write_to_yaml(path)
      else:
        pathlib.Path(path).write_text("runtime_weeks: 1\nold: [\n" + "left over: 1\n" * int(rng.integers(1, 60)))
    for generation in range(2):
      design.write_to_yaml(path)
      ctx.equal(dataclasses.asdict(design), before, "writing changed the design")
      loaded = ExperimentDesign.load_from_yaml(path)
      ctx.event("round_trips")
      ctx.distinct(sorted(params.items(), key=str), generation)
      ctx.equal(dataclasses.asdict(loaded), before, "the loaded design differs", params=params)
      ctx.check(loaded == design, "the loaded design is not equal to the one written", params=params)
      for name in params:
        got = getattr(loaded, name)
        ctx.check(type(got) is type(params[name]) or params[name] is None,
                  f"{name} changed its type", got=repr(got), want=repr(params[name]))
      plain = ExperimentDesign(**params)
      ctx.equal(loaded.design_id, plain.design_id, "the identifier changed", params=params)
      ctx.equal(str(loaded), str(plain), "the description changed", params=params)
      # Overwriting a longer file leaves nothing of it behind.
      design = loaded
  ctx.sample(params=params)


@D02.scenario(quick=250, thorough=5000)
def tampered_files(ctx, rng):
  design = gen.design(rng)
  design.coinflip_salt = gen.pick(rng, [None, "abc"])
  with tempfile.TemporaryDirectory() as folder:
    path = pathlib.Path(folder) / "design.yaml"
    design.write_to_yaml(str(path))
    raw = yaml.safe_load(path.read_text())

    tampered = dict(raw)
    name = gen.pick(rng, ["n_items_after_pre_trim", "n_items_after_post_trim"])
    tampered[name] += int(gen.pick(rng, [-1, 1, 2, -2, 50]))
    path.write_text(yaml.dump(tampered))
    ctx.event("tampered_counts")
    with ctx.raises(ValueError, f"tampered {name}", tampered=tampered):
      ExperimentDesign.load_from_yaml(str(path))

    # The trim fractions or the number of items changed, the counts did not.
    tampered = dict(raw)
    name = gen.pick(rng, ["n_items_before_trimming", "pre_trim_top_percentile",
                          "pre_trim_bottom_percentile", "post_trim_percentile"])
    tampered[name] = (raw[name] + 1 if name == "n_items_before_trimming" else raw[name] + 0.03)
    counts = ref.design_counts(*[tampered[k] for k in (
        "n_items_before_trimming", "pre_trim_top_percentile",
        "pre_trim_bottom_percentile", "post_trim_percentile")])
    invalid = bool(ref.design_problems(tampered))
    if invalid or counts != (raw["n_items_after_pre_trim"], raw["n_items_after_post_trim"]):
      path.write_text(yaml.dump(tampered))
      ctx.event("tampered_counts")
      ctx.distinct("counts", sorted(tampered.items(), key=str))
      with ctx.raises(ValueError, f"tampered {name}", tampered=tampered):
        ExperimentDesign.load_from_yaml(str(path))

    # Invalid parameters.
    tampered = dict(raw)
    name, value = gen.pick(rng, [
        ("runtime_weeks", 0), ("pretest_weeks", -1), ("post_trim_percentile", 0.5),
        ("pre_trim_top_percentile", 1.0), ("pre_trim_bottom_percentile", -0.1)])
    tampered[name] = value
    path.write_text(yaml.dump(tampered))
    ctx.event("tampered_params")
    ctx.distinct("params", name, sorted(tampered.items(), key=str))
    with ctx.raises(ValueError, f"invalid {name}", tampered=tampered):
      ExperimentDesign.load_from_yaml(str(path))

    # The untouched file still loads.
    path.write_text(yaml.dump(raw, sort_keys=bool(gen.chance(rng, 0.5))))
    ctx.check(ExperimentDesign.load_from_yaml(str(path)) == design,
              "the untampered file does not load any more", raw=raw)


# ------------------------------------------------------------------------ D03
D03 = PROPS["D03"] = core.Property(
    "D03",
    rule="Pairs of valid designs that differ in exactly one parameter, in the salt only, or "
    "not at all; fresh processes with other hash seeds. distinct = (parameter, pair).",
    require={"different_pairs": 1000, "salt_pairs": 300, "edited": 200, "fresh_processes": 2},
    assumptions=["Parameters have their documented types (4 and 4.0 are not compared)."])


def _variants(rng, params):
  """Designs that differ from params in one parameter, wherever that is valid."""
  options = {
      "n_items_before_trimming": [params["n_items_before_trimming"] + 1, 4001],
      "runtime_weeks": [params["runtime_weeks"] + 2, params["runtime_weeks"] + 1],
      "primary_metric": [params["primary_metric"] + "_", "other", params["primary_metric"].swapcase(),
                         params["primary_metric"] + " ", " " + params["primary_metric"], params["primary_metric"][:-1],
                         params["primary_metric"].replace("_", "-"), params["primary_metric"][::-1]],
      "pretest_weeks": [params["pretest_weeks"] + 1, params["pretest_weeks"] + 3],
      "is_crossover": [not params["is_crossover"]],
      "pre_trim_top_percentile": [params["pre_trim_top_percentile"] + 1e-9,
                                  params["pre_trim_top_percentile"] + 0.01],
      "pre_trim_bottom_percentile": [params["pre_trim_bottom_percentile"] + 1e-9,
                                     params["pre_trim_bottom_percentile"] + 0.01],
      "post_trim_percentile": [params["post_trim_percentile"] + 1e-9,
                               params["post_trim_percentile"] + 0.01],
      "crossover_washout_weeks": [0, 1, 2, None],
      "alpha": [params["alpha"] + 1e-9, params["alpha"] / 2],
      "power": [params["power"] - 1e-9, params["power"] / 2],
  }
  for name, values in options.items():
    for value in values:
      if value == "":
        continue
      changed = dict(params, **{name: value})
      if changed != params and not ref.design_problems(changed):
        yield name, changed
  swapped = dict(params, pre_trim_top_percentile=params["pre_trim_bottom_percentile"],
                 pre_trim_bottom_percentile=params["pre_trim_top_percentile"])
  if swapped != params and not ref.design_problems(swapped):
    yield "swapped trims", swapped


@D03.scenario(quick=300, thorough=6000)
def one_parameter_differs(ctx, rng):
  params = gen.design_params(rng)
  base = ExperimentDesign(**params)
  base_id = base.design_id
  ctx.check(isinstance(base_id, str) and base_id, "the identifier is not text", id=base_id)
  seen = {base_id: "base"}
  for name, changed in _variants(rng, params):
    other_id = ExperimentDesign(**changed).design_id
    ctx.event("different_pairs")
    ctx.event("differs in " + name)
    ctx.distinct(name, sorted(changed.items(), key=str))
    ctx.check(other_id != base_id, f"designs that differ in {name} share an identifier",
              params=params, changed=changed)
    seen[other_id] = name
  # Salts do not matter, and reading the identifier does not change the design.
  for salt in [None, "abc", gen.salt(rng)]:
    salted = ExperimentDesign(**params, coinflip_salt=salt)
    before = dataclasses.asdict(salted)
    ctx.event("salt_pairs")
    ctx.equal(salted.design_id, base_id, "the salt changed the identifier", salt=salt, params=params)
    ctx.equal(dataclasses.asdict(salted), before, "reading the identifier changed the design")
    salted.coinflip_salt = gen.salt(rng)
    ctx.equal(salted.design_id, base_id, "setting the salt changed the identifier", params=params)
    ctx.equal(copy.deepcopy(salted).design_id, base_id, "a copy has another identifier")
  # A design that is edited after its identifier was read gets the identifier of what it is now.
  for name, changed in _variants(rng, params):
    if name in changed and "n_items" not in name and "trim" not in name and gen.chance(rng, 0.3):
      edited = ExperimentDesign(**params)
      edited.design_id  # pylint: disable=pointless-statement
      setattr(edited, name, changed[name])
      ctx.event("edited")
      ctx.equal(edited.design_id, ExperimentDesign(**changed).design_id,
                f"the identifier does not follow a change of {name}", params=params, changed=changed)


@D03.scenario(quick=2, thorough=20)
def fresh_process(ctx, rng):
  designs = [gen.design_params(rng) for _ in range(20)]
  code = ("import sys,json; sys.path.insert(0, sys.argv[1]);"
          "from feedx.experiment_design import ExperimentDesign as D;"
          "print(json.dumps([D(**p).design_id for p in json.load(sys.stdin)]))")
  env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 10**6))))
  out = subprocess.run([sys.executable, "-c", code, core.REPO], input=json.dumps(designs),
                       capture_output=True, text=True, env=env, timeout=120, check=True)
  ctx.event("fresh_processes")
  ctx.equal(json.loads(out.stdout.splitlines()[-1]),
            [ExperimentDesign(**p).design_id for p in designs],
            "another process computes other identifiers")


# ------------------------------------------------------------------------ D04
D04 = PROPS["D04"] = core.Property(
    "D04",
    rule="Printed descriptions of valid designs, parsed for the facts they state, compared "
    "with the design and with the period labels used by the analysis. distinct = "
    "distinct designs.",
    require={"descriptions": 500, "crossover_texts": 150, "trimmed_texts": 150,
             "untrimmed_texts": 50},
    assumptions=["Facts are recognised by the words swapped/washout/items/alpha/power/salt, "
                 "not by the exact sentences."])


def _numbers(line):
  return [float(x) if "." in x else int(x) for x in re.findall(r"\d+(?:\.\d+)?", line.replace(",", ""))]


@D04.scenario(quick=600, thorough=20000)
def printed_facts(ctx, rng):
  design = gen.design(rng, n_items=int(rng.integers(100, 3000)))
  design.primary_metric = "clicks" if gen.chance(rng, 0.5) else "total_cost"
  design.coinflip_salt = gen.pick(rng, [None, "saltsalt"])
  text = str(design)
  lines = text.splitlines()
  ctx.event("descriptions")
  ctx.distinct(repr(design))

  def lines_with(*words):
    return [l for l in lines if all(w in l.lower() for w in words)]

  ctx.check(design.design_id in text, "the identifier is missing", text=text)
  ctx.check(any(design.primary_metric in l for l in lines_with("primary metric")),
            "the primary metric is missing", text=text)
  if design.is_crossover:
    ctx.check("crossover experiment" in text, "wrong experiment type", text=text)
  else:
    ctx.check("regular experiment" in text and "crossover" not in text.lower(),
              "wrong experiment type", text=text)
    ctx.equal("cuped" in text.lower(), design.pretest_weeks > 0,
              "CUPED is stated iff there are pretest weeks", text=text)
  runtime = lines_with("runtime weeks")
  ctx.check(len(runtime) == 1 and _numbers(runtime[0])[-1:] == [design.runtime_weeks],
            "wrong runtime weeks", text=text)
  pretest = lines_with("weeks", "before")
  ctx.check(bool(pretest) and _numbers(pretest[0])[-1:] == [design.pretest_weeks],
            "wrong pretest weeks", text=text)
  for word, value in (("alpha", design.alpha), ("power", design.power)):
    found = lines_with(word)
    ctx.check(any(float(l.rsplit(":", 1)[1]) == value for l in found), f"wrong {word}", text=text)
  salt = lines_with("salt")
  ctx.check(any(l.rsplit(":", 1)[1].strip() == str(design.coinflip_salt) for l in salt),
            "wrong salt", text=text)

  if design.is_crossover:
    ctx.event("crossover_texts")
    data = pd.DataFrame({"week_id": range(-2, design.runtime_weeks + 2)})
    labelled = experiment_analysis.add_time_period_column(
        data, design=design, start_week_id=0, week_id_column="week_id")
    labels = dict(zip(labelled["week_id"], labelled["time_period"]))
    washout = [w + 1 for w, l in labels.items() if isinstance(l, str) and l.startswith("washout")]
    second = [w for w, l in labels.items() if l in ("washout_2", "test_2")]
    swapped = lines_with("swapped")
    ctx.check(len(swapped) == 1 and _numbers(swapped[0]) == [min(second)],
              "the stated swap week is not the analysed one", text=text, second=second)
    excluded = [l for l in lines_with("washout weeks", "excluded")]
    listed = re.search(r"\[(.*?)\]", excluded[0]).group(1) if excluded else ""
    ctx.check(bool(excluded) and _numbers(listed) == sorted(washout),
              "the stated washout weeks are not the analysed ones", text=text, washout=washout)
    number = [l for l in lines_with("number of crossover washout weeks")]
    ctx.check(bool(number) and _numbers(number[0])[-1] == design.crossover_washout_weeks,
              "wrong number of washout weeks", text=text)
  else:
    ctx.check(not lines_with("washout"), "a regular experiment has washout weeks", text=text)

  n0, n1, n2 = (design.n_items_before_trimming, design.n_items_after_pre_trim,
                design.n_items_after_post_trim)
  item_counts = [_numbers(l)[-1] for l in lines_with("number of items") if _numbers(l)]
  if n0 == n2:
    ctx.event("untrimmed_texts")
    ctx.equal(item_counts, [n0], "wrong item counts", text=text)
    ctx.check(bool(lines_with("no", "trimming")), "trimming is not denied", text=text)
  else:
    ctx.event("trimmed_texts")
    want = [n0] + ([n1] if n1 < n0 else []) + ([n2] if n2 < n1 else [])
    ctx.equal(item_counts, want, "wrong item counts", text=text)
    percent = {
        "top": design.pre_trim_top_percentile if n1 < n0 else 0.0,
        "bottom": design.pre_trim_bottom_percentile if n1 < n0 else 0.0}
    for side, value in percent.items():
      stated = [l for l in lines_with("pre-test") if l.strip().lower().startswith(side)]
      ctx.equal(len(stated), int(value > 0), f"{side} pre-trimming is stated iff it is done",
                text=text)
      if stated:
        ctx.check(f"{value:.2%}" in stated[0] and
                  ("highest" if side == "top" else "lowest") in stated[0],
                  f"wrong {side} pre-trimming", text=text)
    post = [l for l in lines_with("excluded from the analysis") if "%" in l]
    ctx.equal(len(post), int(n2 < n1), "post-trimming is stated iff it is done", text=text)
    if post:
      ctx.check(f"{design.post_trim_percentile:.2%}" in post[0], "wrong post-trimming", text=text)
  ctx.sample(text=text)
