"""Generators of realistic and hostile workloads."""

import datetime as dt
import math

import numpy as np
import pandas as pd

from feedx import experiment_design

from mon import ref

ExperimentDesign = experiment_design.ExperimentDesign


def pick(rng, options):
  return options[int(rng.integers(len(options)))]


def chance(rng, p):
  return bool(rng.random() < p)


# ------------------------------------------------------------------ designs
NAMES = ["clicks", "impressions", "total_cost", "conversions",
         "total_conversion_value", "revenue", "my metric", "métrique"]


def design_params(rng, n_items=None, metric=None, crossover=None, pretrim=None,
                  posttrim=None, max_runtime=None, max_pretest=None, pretest=None):
  """The parameters of a random valid design."""
  long = max_runtime is None and max_pretest is None and chance(rng, 0.08)
  max_runtime = max_runtime or (26 if long else 10)
  max_pretest = max_pretest or (13 if long else 5)
  while True:
    crossover_ = chance(rng, 0.45) if crossover is None else crossover
    if crossover_:
      runtime = 2 * int(rng.integers(1, max_runtime // 2 + 1))
      washout = int(rng.integers(0, max(1, runtime // 2)))
    else:
      runtime = int(rng.integers(1, max_runtime + 1))
      # A regular design may carry an irrelevant number of washout weeks.
      washout = None if chance(rng, 0.8) else int(rng.integers(0, 4))
    pretest_ = int(rng.integers(0, max_pretest + 1)) if pretest is None else pretest
    top = bottom = post = 0.0
    if pretest_ and (chance(rng, 0.5) if pretrim is None else pretrim):
      top = pick(rng, [0.0, 0.01, 0.02, 0.05, 0.07, 0.1, 0.29, round(float(rng.random()) * 0.3, 3)])
      bottom = pick(rng, [0.0, 0.01, 0.03, 0.1, round(float(rng.random()) * 0.3, 3)])
    if chance(rng, 0.5) if posttrim is None else posttrim:
      post = pick(rng, [0.01, 0.02, 0.05, 0.1, round(float(rng.random()) * 0.3, 3)])
    params = dict(
        n_items_before_trimming=int(n_items or rng.integers(60, 5000)),
        runtime_weeks=runtime,
        primary_metric=metric or pick(rng, NAMES),
        pretest_weeks=pretest_,
        is_crossover=crossover_,
        pre_trim_top_percentile=top,
        pre_trim_bottom_percentile=bottom,
        post_trim_percentile=post,
        crossover_washout_weeks=washout,
        alpha=pick(rng, [0.05, 0.05, 0.01, 0.1, 0.2, 0.001, round(float(rng.uniform(0.001, 0.4)), 4)]),
        power=pick(rng, [0.8, 0.8, 0.9, 0.5, 0.95, round(float(rng.uniform(0.3, 0.99)), 4)]),
    )
    if not ref.design_problems(params):
      return params


def design(rng, **kwargs):
  return ExperimentDesign(**design_params(rng, **kwargs))


# ------------------------------------------------------------------ samples
KINDS = ["normal", "lognormal", "gamma", "heavy", "tiny", "huge", "negative",
         "offset", "uniform"]
POSITIVE_KINDS = ["lognormal", "gamma", "tiny", "huge", "uniform", "offset"]


def sample(rng, n, kind=None):
  """A continuous sample (no ties, almost surely)."""
  kind = kind or pick(rng, KINDS)
  if kind == "normal":
    return rng.normal(rng.normal(0, 3), rng.uniform(0.2, 5), n)
  if kind == "lognormal":
    return rng.lognormal(rng.uniform(-2, 3), rng.uniform(0.2, 1.8), n)
  if kind == "gamma":
    return rng.gamma(rng.uniform(0.2, 5), rng.uniform(0.1, 50), n)
  if kind == "heavy":
    return rng.standard_t(2, n) * rng.uniform(0.5, 5)
  if kind == "tiny":
    return rng.lognormal(0, 0.8, n) * 10.0 ** rng.uniform(-9, -3)
  if kind == "huge":
    return rng.lognormal(0, 0.8, n) * 10.0 ** rng.uniform(4, 10)
  if kind == "negative":
    return -rng.gamma(rng.uniform(0.5, 5), rng.uniform(0.1, 50), n)
  if kind == "offset":
    return rng.normal(0, 1, n) + rng.uniform(20, 1000)
  if kind == "uniform":
    return rng.uniform(0, rng.uniform(0.1, 10), n)
  raise ValueError(kind)


def discrete_sample(rng, n):
  """A sample with ties."""
  kind = pick(rng, ["poisson", "zero_inflated", "binary", "large"])
  if kind == "large":
    return np.minimum(np.floor(rng.lognormal(0, 1, n) * 2e3) * 2e5, 2e9)
  if kind == "poisson":
    return rng.poisson(rng.uniform(0.5, 20), n).astype(float)
  if kind == "zero_inflated":
    return rng.poisson(rng.uniform(0.5, 20), n) * (rng.random(n) < rng.uniform(0.1, 0.9)) * 1.0
  x = (rng.random(n) < rng.uniform(0.1, 0.9)).astype(float)
  x[:2] = [0.0, 1.0]
  return x


def form(rng, x):
  """The same values in another form: integers if they are whole, or a view into a larger array."""
  if chance(rng, 0.5) and np.all(x == np.floor(x)) and np.abs(x).max() < 2**31:
    fitting = [t for t in (np.int32, np.int16, np.uint32, np.uint16, np.uint8)
               if np.iinfo(t).min <= x.min() and x.max() <= np.iinfo(t).max]
    return x.astype(pick(rng, [np.int64, np.int64] + fitting))
  kind = pick(rng, ["plain", "plain", "every_other", "reversed", "column", "read_only"])
  if kind == "every_other":
    return np.repeat(x, 2)[::2]
  if kind == "reversed":
    return x[::-1].copy()[::-1]
  if kind == "column":
    return np.stack([x, x + 1], axis=1)[:, 0]
  if kind == "read_only":
    x = x.copy()
    x.flags.writeable = False
  return x


def quantile(rng, n=None):
  q = pick(rng, [0.0, 0.0, 0.01, 0.05, 0.1, 0.2, 0.25, 0.29, 0.3, 0.4,
                 round(float(rng.uniform(0, 0.45)), 4)])
  if n is not None and n - 2 * ref.n_floor(q, n) < 5:
    return 0.1 if n - 2 * ref.n_floor(0.1, n) >= 5 else 0.0
  return q


def size(rng, low, high, big=3000, share=0.04):
  """A number of items: small as a rule, so large now and then that a path for big data would be taken."""
  if chance(rng, share):
    return int(rng.integers(max(high, big // 4), big))
  return int(rng.integers(low, high))


def alpha(rng):
  return pick(rng, [0.05, 0.01, 0.1, 0.2, 0.001, 0.5, round(float(rng.uniform(0.0005, 0.6)), 5)])


ALTERNATIVES = ["two-sided", "greater", "less"]


# ----------------------------------------------------------------- calendars
def start_date(rng):
  """A start date, often near a leap day, a year end or a weekend."""
  if chance(rng, 0.5):
    base = pick(rng, [dt.date(2024, 2, 26), dt.date(2023, 12, 28), dt.date(2020, 2, 29),
                      dt.date(2024, 12, 30), dt.date(2022, 3, 25), dt.date(2023, 1, 1)])
    return base + dt.timedelta(days=int(rng.integers(-4, 5)))
  return dt.date(2019, 1, 1) + dt.timedelta(days=int(rng.integers(0, 2000)))


def item_ids(rng, n, kind=None):
  """n distinct item ids in one of many styles."""
  kind = kind or pick(rng, ["item", "number", "padded", "sku", "hash", "odd", "twins"])
  if kind == "item":
    ids = [f"item_{i}" for i in range(n)]
  elif kind == "number":
    start = int(rng.integers(0, 10**6))
    ids = [str(start + i) for i in range(n)]
  elif kind == "padded":
    ids = [f"{i:08d}" for i in range(n)]
  elif kind == "sku":
    ids = [f"shopify_US_{10**9 + 7919 * i}_{i % 13}" for i in range(n)]
  elif kind == "hash":
    ids = [f"{int(v):x}-{i}" for i, v in enumerate(rng.integers(0, 2**40, n))]
  elif kind == "twins":
    # Different items that some normalisation would merge, or drop.
    ids = ["nan", "None", "", "0", "-1", "True", "NULL", "x" * 300 + "1", "x" * 300 + "2"]
    k = 0
    while len(ids) < n:
      ids += pick(rng, [(f"a{k}", f"A{k}"), (f"{k}", f"0{k}"), (f"b{k}", f" b{k}"), (f"c{k}", f"c{k} "),
                        (f"{k}.0x", f"{k}x"), (f"\u00e9{k}", f"e\u0301{k}"), (f"d-{k}", f"d_{k}"), (f"t\t{k}", f"t {k}")])
      k += 1
    ids = list(dict.fromkeys(ids))
    while len(ids) < n:
      ids.append(f"more {len(ids)}")
    ids = ids[:n]
  else:
    ids = [pick(rng, ["é", "a b", "x,y", "'q'", "0", "-"]) + str(i) for i in range(n)]
  rng.shuffle(ids)
  return ids


def balanced_ids(rng, n, salt, kind=None):
  """n item ids whose coinflip with this salt passes the ratio check."""
  from scipy import stats  # pylint: disable=g-import-not-at-top
  while True:
    ids = item_ids(rng, n, kind)
    k = sum(ref.coinflip(salt, i) for i in ids)
    if stats.binomtest(k, n, 0.5).pvalue > 0.05:
      return ids


def salt(rng):
  return pick(rng, ["abc", "", "x"]) + "".join(
      pick(rng, list("0123456789abcdefXYZ_ -")) for _ in range(int(rng.integers(1, 14))))


def weekly_metric(rng, n_items, n_weeks, kind=None, effect=None):
  """An (item, week) matrix of a non-negative metric with item heterogeneity."""
  kind = kind or pick(rng, ["continuous", "continuous", "counts", "sparse"])
  level = rng.gamma(rng.uniform(0.8, 4), rng.uniform(1, 20), (n_items, 1))
  season = rng.uniform(0.6, 1.6, (1, n_weeks))
  if kind == "continuous":
    return level * season * rng.lognormal(0, rng.uniform(0.05, 0.6), (n_items, n_weeks))
  values = rng.poisson(level * season).astype(float)
  if kind == "sparse":
    values *= rng.random((n_items, n_weeks)) < rng.uniform(0.3, 0.9)
  return values


def finite(x):
  return x is not None and math.isfinite(x)


def frame_fingerprint(df):
  """A byte-exact fingerprint of a dataframe: values, types, labels and order."""
  import hashlib  # pylint: disable=g-import-not-at-top
  h = hashlib.md5()
  h.update(repr(list(df.columns)).encode())
  h.update(repr(list(df.columns.names)).encode())
  h.update(repr([str(t) for t in df.dtypes]).encode())
  h.update(repr(df.index.names).encode())
  h.update(repr(type(df.index)).encode())
  h.update(repr(df.index.tolist()).encode())
  for i in range(df.shape[1]):
    col = df.iloc[:, i]
    if col.dtype == object:
      h.update(repr([(type(v).__name__, v) for v in col.tolist()]).encode())
    else:
      h.update(np.ascontiguousarray(col.to_numpy()).tobytes())
  return h.hexdigest()


def shuffled(rng, df):
  """The rows in another order: random, last first, or the largest of a column first."""
  kind = pick(rng, ["random", "random", "random", "reversed", "descending"])
  if kind == "reversed":
    return df.iloc[::-1]
  if kind == "descending" and df.columns.nlevels == 1 and df.columns.is_unique:
    values = df.iloc[:, int(rng.integers(df.shape[1]))]
    if values.dtype != object:
      return df.iloc[np.argsort(-values.rank(method="first").fillna(0).to_numpy(), kind="stable")]
  return df.iloc[rng.permutation(len(df))]


def daily_frame(rng, values, ids, start, columns):
  """Long daily frame: values {column: (item, day) matrix}."""
  n_items, n_days = next(iter(values.values())).shape
  days = [start + dt.timedelta(days=d) for d in range(n_days)]
  data = {
      columns["item_id"]: np.repeat(np.array(ids, dtype=object), n_days),
      columns["date"]: np.tile(np.array([d.isoformat() for d in days], dtype=object), n_items),
  }
  for name, matrix in values.items():
    data[columns.get(name, name)] = matrix.ravel()
  return pd.DataFrame(data)


def maybe_categorical(rng, data, column, p=0.1):
  """The frame with the column sometimes categorical, as after an import, maybe with a category without rows."""
  if not chance(rng, p):
    return data
  out = data.copy()
  out[column] = out[column].astype("category")
  if chance(rng, 0.5):
    unused = "gone" if out[column].cat.categories.dtype == object else int(out[column].cat.categories.max()) + 1
    if unused not in out[column].cat.categories:
      out[column] = out[column].cat.add_categories([unused])
  return out


def row_labels(rng, n):
  """Labels of the rows after filtering and sorting, or, repeated, after joining several files."""
  if chance(rng, 0.25):
    return rng.integers(0, int(rng.integers(2, 50)), n)
  return rng.permutation(n) * int(rng.integers(1, 4)) + int(rng.integers(0, 101))
