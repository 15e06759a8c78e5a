"""R01-R03: the coinflip and the randomised item list."""

import collections
import dataclasses
import json
import os
import subprocess
import sys

import numpy as np
import pandas as pd
from scipy import stats

from feedx import data_preparation
from feedx import experiment_design

from mon import core
from mon import gen
from mon import ref

Coinflip = experiment_design.Coinflip
PROPS = {}

# ------------------------------------------------------------------------ R01
R01 = PROPS["R01"] = core.Property(
    "R01",
    rule="Random and hostile salts and item ids, called repeatedly, in several orders, types "
    "and processes. distinct = distinct (salt, item) pairs.",
    require={"flips": 5000, "fresh_processes": 2, "random_salts": 500, "numeric_ids": 500})

ODD = ["SKU-A", "sku-a", "Sku-A", "007", "7", "7.0", "\u00e9", "e\u0301", "\uff27\uff34\uff29\uff2e", "GTIN", "stra\u00dfe", "strasse",
       "a-b", "a_b", "a\tb", "a b", "", " ", "0", "-1", "é", "日本語", "a" * 500, "\n", "\x00", "item_1 ", "ITEM_1", "1e3",
       "nan", "None", "🙂", "a\u00a0b", "\u00a0a", "a\u00a0", "\ufeff7", "a\u200bb", "\u2010", "\u2011", "\r\n", "\r", "\\", "%s", "{}",
       "a\x00b", "\u0131", "\u0130", "p" * 90 + "1" + "s" * 90, "p" * 90 + "2" + "s" * 90]


def any_text(rng, most=200):
  """Text of any characters."""
  n = int(gen.pick(rng, [rng.integers(1, 12), rng.integers(1, most)]))
  tops = gen.pick(rng, [[0x80], [0x100], [0x3000], [0x110000], [0x80, 0x100, 0x3000, 0x110000]])
  codes = [int(rng.integers(0, gen.pick(rng, tops))) for _ in range(n)]
  return "".join(chr(c) if not 0xd800 <= c < 0xe000 else "?" for c in codes)


def _salt(rng):
  return gen.pick(rng, [gen.salt(rng), "%020x" % rng.integers(2**62), "é", "日本", " ", "0",
                        "x" * 200, any_text(rng)])


@R01.scenario(quick=300, thorough=6000)
def pure_function(ctx, rng):
  salt = _salt(rng)
  coinflip = Coinflip(salt)
  items = gen.item_ids(rng, 40) + [gen.pick(rng, ODD) for _ in range(5)] + [any_text(rng) for _ in range(6)]
  first = {}
  for item in items:
    got = coinflip(item)
    ctx.event("flips")
    ctx.distinct(salt, item)
    ctx.check(got in (0, 1), "an assignment is neither 0 nor 1", got=repr(got))
    ctx.equal(got, ref.coinflip(salt, item), "not the parity of the salted hash",
              salt=salt, item=item)
    first[item] = got
  other = Coinflip(salt)
  Coinflip(_salt(rng))(items[0])  # Another coinflip in between changes nothing.
  for item in rng.permutation(np.array(items, dtype=object)):
    ctx.equal(other(item), first[item], "the assignment depends on the call history",
              salt=salt, item=item)
    ctx.equal(coinflip(item), first[item], "the assignment depends on the call history")
  ctx.equal(coinflip.salt, salt, "calling changed the salt")
  for value in rng.integers(-5, 10**9, 10):
    ctx.event("numeric_ids")
    text = coinflip(str(int(value)))
    for form in (int(value), np.int64(value), np.str_(str(int(value)))):
      ctx.equal(coinflip(form), text, "the assignment depends on the type of the id", item=repr(form))
  series = pd.Series(items, dtype=object).apply(coinflip)
  ctx.equal(series.tolist(), [first[i] for i in items], "mapping over a column differs")
  ctx.sample(salt=salt, items=items[:3], assignments=[first[i] for i in items[:3]])


@R01.scenario(quick=20, thorough=400)
def salts(ctx, rng):
  for empty in ("", None):
    with ctx.raises(ValueError, "an empty salt"):
      Coinflip(empty)
  length = int(rng.integers(4, 20))
  np.random.seed(1)  # Salts must not follow the global random state.
  first = Coinflip.with_random_salt(length).salt
  np.random.seed(1)
  drawn = [first] + [Coinflip.with_random_salt(length).salt for _ in range(30)]
  drawn += [Coinflip.with_random_salt().salt for _ in range(30)]
  # So many that a salt from a few million would be repeated.
  many = [Coinflip.with_random_salt().salt for _ in range(3000)]
  ctx.equal(len(set(many)), len(many), "a random salt was repeated", drawn=many[:5])
  ctx.event("random_salts", len(drawn) + len(many))
  if length >= 6:
    ctx.equal(len(set(drawn)), len(drawn), "a random salt was repeated", drawn=drawn[:5])
  for salt in drawn:
    ctx.check(isinstance(salt, str) and salt, "a random salt is not text", salt=repr(salt))
  counts = collections.Counter(len(s) for s in drawn[31:])
  ctx.check(min(counts) >= 8, "random salts are too short to be unique", lengths=counts)
  flip = Coinflip.with_random_salt(length)
  ctx.equal(flip("a"), ref.coinflip(flip.salt, "a"), "a random coinflip does not use its salt")


@R01.scenario(quick=2, thorough=20)
def fresh_process(ctx, rng):
  cases = [(_salt(rng), i) for i in gen.item_ids(rng, 100) + ODD]
  code = ("import sys,json; sys.path.insert(0, sys.argv[1]);"
          "from feedx.experiment_design import Coinflip as C;"
          "print(json.dumps([int(C(s)(i)) for s, i in json.load(sys.stdin)]))")
  env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 10**6))))
  out = subprocess.run([sys.executable, "-c", code, core.REPO], input=json.dumps(cases),
                       capture_output=True, text=True, env=env, timeout=120, check=True)
  ctx.event("fresh_processes")
  ctx.equal(json.loads(out.stdout.splitlines()[-1]), [ref.coinflip(s, i) for s, i in cases],
            "another process assigns differently")


# ------------------------------------------------------------------------ R02
R02 = PROPS["R02"] = core.Property(
    "R02",
    rule="Families of item ids (sequential, padded, SKU, hashes, common prefixes) under many "
    "salts; exact binomial tests at 1e-9 on balance, features of the id and "
    "pairs of salts. distinct = (salt, family).",
    require={"assignments": 50000, "salt_pairs": 50, "features": 100, "look_alikes": 300},
    assumptions=["The hash is deterministic, so a pass here is a property of these ids."])
TINY = 1e-9


def _binom(k, n):
  return stats.binomtest(int(k), int(n), 0.5).pvalue


@R02.scenario(quick=60, thorough=1500)
def balance_and_independence(ctx, rng):
  n = 1500
  kind = gen.pick(rng, ["item", "number", "padded", "sku", "hash", "prefix", "framed"])
  ids = ([f"{'p' * 40}_{i}{'_s' * 40 if kind == 'framed' else ''}" for i in range(n)] if kind in ("prefix", "framed")
         else gen.item_ids(rng, n, kind))
  base = gen.salt(rng)
  # Related salts: the same with one character more, a counter, a prefix.
  family = [base, base + "1", base + "2", "x" + base, gen.salt(rng) + "#"]
  table = {s: np.array([Coinflip(s)(i) for i in ids]) for s in dict.fromkeys(family)}
  for salt, a in table.items():
    ctx.event("assignments", n)
    ctx.distinct(salt, kind)
    ctx.check(_binom(a.sum(), n) > TINY, "unbalanced assignment", salt=salt, kind=kind,
              treated=int(a.sum()), n=n)
    features = {
        "odd last character": np.array([ord(i[-1]) % 2 for i in ids]),
        "length": np.array([len(i) > np.median([len(j) for j in ids]) for i in ids]),
        "sorted half": np.argsort(np.argsort(np.array(ids))) < n // 2,
        "position": np.arange(n) % 2,
        "character sum": np.array([sum(map(ord, i)) % 2 for i in ids]),
    }
    for name, feature in features.items():
      feature = np.asarray(feature).astype(int)
      if not 100 < feature.sum() < n - 100:
        continue
      ctx.event("features")
      agree = (feature == a).astype(int)
      # With balanced independent assignments both halves are balanced.
      for half in (0, 1):
        member = feature == half
        ctx.check(_binom(a[member].sum(), member.sum()) > TINY,
                  f"the assignment depends on the id's {name}", salt=salt, kind=kind,
                  agree=int(agree.sum()))
    ordered = a[np.argsort(np.array(ids))]
    for lag in (1, 2, 3, 10):
      same = ordered[lag:] == ordered[:-lag]
      ctx.check(_binom(same.sum(), len(same)) > TINY, "neighbouring ids are not independent",
                salt=salt, kind=kind, lag=lag)
  keys = list(table)
  for i, s in enumerate(keys):
    for t in keys[i + 1:]:
      ctx.event("salt_pairs")
      same = (table[s] == table[t]).sum()
      ctx.check(_binom(same, n) > TINY, "assignments under two salts are not independent",
                salts=[s, t], kind=kind, same=int(same))
  ctx.sample(kind=kind, salts=keys, treated={s: int(a.sum()) for s, a in table.items()})


@R02.scenario(quick=4, thorough=60)
def slight_bias(ctx, rng):
  """So many flips that a treatment share of 50.5% is seen."""
  treated, n = 0, 0
  for _ in range(8):
    coinflip = Coinflip(gen.salt(rng))
    ids = [f"{gen.pick(rng, ['sku', 'p-', ''])}{i}" for i in range(50_000)]
    treated += sum(coinflip(i) for i in ids)
    n += len(ids)
  ctx.event("assignments", n)
  ctx.event("slight_bias")
  ctx.distinct("slight", n, treated)
  ctx.check(abs(treated - n / 2) < 6 * np.sqrt(n) / 2, "not half of the items are treated", treated=treated, n=n)


@R02.scenario(quick=20, thorough=400)
def one_item_over_salts(ctx, rng):
  """Over salts, each item is treated half of the time and items are independent."""
  items = list(dict.fromkeys(gen.item_ids(rng, 6) + ["", "0"]))
  salts = [f"{gen.salt(rng)}{i}" for i in range(600)]
  a = np.array([[Coinflip(s)(i) for s in salts] for i in items])
  ctx.event("assignments", a.size)
  for i, row in zip(items, a):
    ctx.check(_binom(row.sum(), len(row)) > TINY, "an item is not treated half of the time", item=i)
  for x in range(len(items)):
    for y in range(x):
      same = (a[x] == a[y]).sum()
      ctx.check(_binom(same, len(salts)) > TINY, "two items are not assigned independently",
                items=[items[x], items[y]])


VARIANTS = {
    "upper case": str.upper, "lower case": str.lower, "a space after": lambda i: i + " ", "a space before": lambda i: " " + i,
    "a zero before": lambda i: "0" + i, "a zero after": lambda i: i + "0", "a decimal": lambda i: i + ".0",
    "a dash": lambda i: i.replace("_", "-"), "reversed": lambda i: i[::-1], "doubled": lambda i: i + i,
    "full width": lambda i: "".join(chr(ord(c) + 0xfee0) if "!" <= c <= "~" else c for c in i),
    "accent": lambda i: i + "e\u0301", "composed accent": lambda i: i + "\u00e9", "new line": lambda i: i + "\n",
    "quotes": lambda i: f"'{i}'", "long prefix": lambda i: "x" * 80 + i}


@R02.scenario(quick=24, thorough=300)
def similar_items(ctx, rng):
  """An item and its look-alike, such as the same name in upper case, are different items."""
  salt = gen.salt(rng)
  ids = [f"Item_{i}_sKu" for i in range(int(rng.integers(10**6)), int(rng.integers(10**6, 2 * 10**6)))][:800]
  coinflip = Coinflip(salt)
  base = np.array([coinflip(i) for i in ids])
  assigned = {name: np.array([coinflip(change(i)) for i in ids]) for name, change in VARIANTS.items()}
  ctx.event("assignments", base.size * (1 + len(assigned)))
  for name, a in assigned.items():
    ctx.event("look_alikes")
    ctx.distinct(salt, name)
    ctx.check(_binom((a == base).sum(), len(ids)) > TINY, "an item and its look-alike are not assigned independently",
              change=name, salt=salt, same=int((a == base).sum()), n=len(ids))
  ctx.check(_binom((assigned["accent"] == assigned["composed accent"]).sum(), len(ids)) > TINY,
            "two spellings of an item are not assigned independently")
  ctx.check(_binom((assigned["upper case"] == assigned["lower case"]).sum(), len(ids)) > TINY,
            "two spellings of an item are not assigned independently")


# ------------------------------------------------------------------------ R03
R03 = PROPS["R03"] = core.Property(
    "R03",
    rule="Random long histories (shuffled rows, ties, extra weeks, offsets, several rows per "
    "item-week, hostile column names) randomised under random designs. distinct = "
    "(items, design, salt).",
    require={"randomised": 150, "pre_trimmed": 80, "generated_salts": 50, "reused_salts": 50,
             "ties_at_cut": 5, "sparse_rows": 30, "gaps": 8, "split_rows": 20},
    assumptions=["Totals of tied items are compared by value; which tied item is trimmed is free."])


@R03.scenario(quick=240, thorough=6000)
def randomised_list(ctx, rng):
  n = gen.size(rng, 70, 260, 4000)
  pretrim = gen.chance(rng, 0.7)
  item_col, week_col, metric, treat_col = gen.pick(rng, [
      ("item_id", "week_id", "clicks", "treatment_assignment"),
      ("offer", "woche", "revenue", "arm"),
      ("id", "week", "total_cost", "treatment")])
  design = gen.design(rng, n_items=n, metric=metric, pretrim=pretrim, max_pretest=4)
  pretrim = design.pre_trim_top_percentile > 0 or design.pre_trim_bottom_percentile > 0
  weeks = design.pretest_weeks + int(rng.integers(1, 6))
  offset = int(rng.integers(-5, 30))
  kind = gen.pick(rng, ["continuous", "counts", "sparse", "ties", "margin"])
  if kind == "margin":  # negative for some items
    values = rng.normal(0.5, 1, (n, weeks))
  elif kind == "ties":
    values = np.floor(gen.weekly_metric(rng, n, weeks, "counts") / 12)
  else:
    values = gen.weekly_metric(rng, n, weeks, kind)
  if kind in ("continuous", "margin"):
    # Old weeks must not influence which items are trimmed.
    values[:, : weeks - design.pretest_weeks] *= rng.lognormal(0, 3, (n, 1))
  numeric = gen.chance(rng, 0.2)
  ids = list(range(1000, 1000 + n)) if numeric else gen.item_ids(rng, n)
  data = pd.DataFrame({
      item_col: np.repeat(np.array(ids, dtype=None if numeric else object), weeks),
      week_col: np.tile(np.arange(weeks) + offset, n),
      metric: values.ravel(),
      "extra": rng.random(n * weeks)})
  data = gen.maybe_categorical(rng, data, item_col)
  if pretrim and gen.chance(rng, 0.4):
    # Rows without performance are often not in the data.
    ctx.event("sparse_rows")
    gone = rng.random(len(data)) < 0.4
    gone[np.arange(n) * weeks + rng.integers(weeks - design.pretest_weeks, weeks, n)] = False
    values = np.where(gone.reshape(n, weeks), 0.0, values)
    data = data[~gone]
  if pretrim and gen.chance(rng, 0.3) and weeks - design.pretest_weeks > 1:
    # A gap in the weeks before the pretest.
    ctx.event("gaps")
    week = offset + int(rng.integers(1, weeks - design.pretest_weeks))
    keep = (data[week_col] != week).to_numpy()
    data = data[keep]
  if pretrim and gen.chance(rng, 0.3):
    # For example one row per item, week and country.
    ctx.event("split_rows")
    share = np.where(rng.random(len(data)) < 0.5, 0.25, 1.0)
    rest = data[share < 1].copy()
    data[metric] *= share
    rest[metric] *= 0.75
    data = pd.concat([data, rest], ignore_index=True)
  if gen.chance(rng, 0.4):
    data = gen.shuffled(rng, data)
  if gen.chance(rng, 0.3):
    data.index = gen.row_labels(rng, len(data))
  salt = gen.salt(rng) if gen.chance(rng, 0.5) else None
  design.coinflip_salt = salt
  before_design = dataclasses.asdict(design)
  before = gen.frame_fingerprint(data)

  with core.captured() as printed:
    status, out = core.outcome(
        data_preparation.perform_treatment_assignment, data, design=design,
        rng=np.random.default_rng(int(rng.integers(2**31))), item_id_column=item_col,
        week_id_column=week_col, treatment_assignment_column=treat_col)
  used = design.coinflip_salt
  ctx.check(isinstance(used, str) and used, "no salt was recorded in the design", salt=repr(used))
  if salt is None:
    ctx.event("generated_salts")
    ctx.check(used in printed.getvalue(), "the generated salt is not shown")
    ctx.check(len(used) >= 8, "the generated salt is too short", salt=used)
  else:
    ctx.equal(used, salt, "the design's salt was replaced")
  after_design = dataclasses.asdict(design)
  ctx.equal({k: v for k, v in after_design.items() if k != "coinflip_salt"},
            {k: v for k, v in before_design.items() if k != "coinflip_salt"},
            "randomising changed the design")
  ctx.equal(gen.frame_fingerprint(data), before, "randomising changed the data")

  totals = {i: 0.0 for i in ids}
  last = offset + weeks - 1
  for i, item in enumerate(ids):
    for w in range(weeks):
      if pretrim and offset + w > last - design.pretest_weeks:
        totals[item] += values[i, w]
  n_top = ref.n_floor(design.pre_trim_top_percentile, n) if pretrim else 0
  n_bottom = ref.n_floor(design.pre_trim_bottom_percentile, n) if pretrim else 0
  if status == "error":
    # Only a sample ratio mismatch may reject a valid input.
    ctx.check(isinstance(out, ValueError) and "sample_ratio" in str(out),
              "a valid history was rejected", error=repr(out))
    if n_top + n_bottom == 0:
      k = sum(ref.coinflip(used, i) for i in ids)
      ctx.check(_binom(k, n) < 0.001 * 1.0001, "a balanced assignment was rejected", treated=k, n=n)
    ctx.event("rejected_ratio")
    return
  ctx.event("randomised")
  ctx.distinct(repr(design), kind, n)
  ctx.equal(sorted(out.columns), sorted([item_col, treat_col]), "wrong columns")
  got = out[item_col].tolist()
  ctx.equal(len(set(got)), len(got), "an item appears twice")
  ctx.check(set(got) <= set(ids), "an unknown item appears")
  ctx.equal(len(got), design.n_items_after_pre_trim if pretrim else n,
            "wrong number of items in the experiment", design=repr(design))
  ctx.equal(out[treat_col].tolist(), [ref.coinflip(used, i) for i in got],
            "assignments are not the coinflip of the design's salt", salt=used)
  k = int(out[treat_col].sum())
  ctx.check(_binom(k, len(got)) >= 0.001 * 0.9999, "an unbalanced assignment was accepted",
            treated=k, n=len(got))
  if pretrim and n_top + n_bottom:
    ctx.event("pre_trimmed")
    ordered = np.sort(np.array(list(totals.values())))
    kept = np.sort(np.array([totals[i] for i in got]))
    ctx.close(kept, ordered[n_bottom: n - n_top], "not the extreme items were trimmed",
              rtol=1e-9, atol=1e-9, design=repr(design))
    if n_top and ordered[n - n_top] == ordered[n - n_top - 1]:
      ctx.event("ties_at_cut")
  else:
    ctx.equal(sorted(map(str, got)), sorted(map(str, ids)), "items are missing")

  # The recorded salt reproduces the assignment.
  if salt is None:
    ctx.event("reused_salts")
    with core.captured():
      repeated, again = core.outcome(
          data_preparation.perform_treatment_assignment,
          gen.shuffled(rng, data), design=design, rng=np.random.default_rng(0),
          item_id_column=item_col, week_id_column=week_col,
          treatment_assignment_column=treat_col)
    if repeated == "error":
      # Other tied items were trimmed, and what remains is not balanced.
      ctx.check(n_top + n_bottom > 0 and isinstance(again, ValueError) and "sample_ratio" in str(again),
                "the same history was rejected with the recorded salt", error=repr(again))
      return
    first = dict(zip(got, out[treat_col].tolist()))
    second = dict(zip(again[item_col].tolist(), again[treat_col].tolist()))
    ctx.check(all(first[i] == second[i] for i in first if i in second),
              "the recorded salt gives other assignments")
    ctx.equal(design.coinflip_salt, used, "reusing the design replaced its salt")
  ctx.sample(design=repr(design), items=n, kept=len(got), treated=k)


@R03.scenario(quick=40, thorough=400)
def rejected_calls(ctx, rng):
  n = 80
  design = gen.design(rng, n_items=n, metric="clicks", pretrim=True, pretest=2, posttrim=False)
  if not (design.pre_trim_top_percentile or design.pre_trim_bottom_percentile):
    design = dataclasses.replace(design, pre_trim_top_percentile=0.05)
  design.coinflip_salt = "salt"
  data = pd.DataFrame({"item_id": gen.item_ids(rng, n) * 4,
                       "week_id": np.repeat(range(4), n), "clicks": rng.random(4 * n)})
  call = data_preparation.perform_treatment_assignment
  r = np.random.default_rng(0)
  with core.captured():
    with ctx.raises(ValueError, "pre-trimming without a week column"):
      call(data, design=design, rng=r, item_id_column="item_id")
    with ctx.raises(ValueError, "missing item column"):
      call(data, design=design, rng=r, item_id_column="nope", week_id_column="week_id")
    with ctx.raises(ValueError, "missing week column"):
      call(data, design=design, rng=r, item_id_column="item_id", week_id_column="nope")
    with ctx.raises(ValueError, "assignment column equal to the item column"):
      call(data, design=design, rng=r, item_id_column="item_id", week_id_column="week_id",
           treatment_assignment_column="item_id")
    plain = dataclasses.replace(design, pre_trim_top_percentile=0.0, pre_trim_bottom_percentile=0.0)
    status, out = core.outcome(call, data, design=plain, rng=r, item_id_column="item_id")
    # Nor are weeks and metrics, even if the name of the week column is given.
    listed, items = core.outcome(call, data[["item_id"]], design=plain, rng=r, item_id_column="item_id",
                                 week_id_column="week_id")
  ctx.check(listed == "ok" or "sample_ratio" in str(items),
            "no weeks and metrics are needed without pre-trimming", error=repr(items))
  if status == "ok" and listed == "ok":
    ctx.equal(items.sort_values("item_id").to_numpy().tolist(), out.sort_values("item_id").to_numpy().tolist(),
              "the assignment depends on the weeks and metrics")
  ctx.check(status == "ok" or "sample_ratio" in str(out),
            "no week column is needed without pre-trimming", error=repr(out))
  if status == "ok":
    ctx.equal(len(out), n, "items are missing without pre-trimming")
