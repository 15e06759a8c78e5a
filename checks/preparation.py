"""P01, P02, P03, P09, P14: the steps of the data preparation."""

import collections
import datetime as dt

import numpy as np
import pandas as pd

from feedx import data_preparation as dp

from mon import core
from mon import gen
from mon import ref

PROPS = {}
STANDARD = ["clicks", "impressions", "total_cost", "conversions", "total_conversion_value"]

# ------------------------------------------------------------------------ P01
P01 = PROPS["P01"] = core.Property(
    "P01",
    rule="Raw frames whose column names are permutations of the standard names, renamed or "
    "unrelated, with text, integer, float and nullable values, custom columns and parse "
    "functions. distinct = (naming, requested columns, custom columns).",
    require={"frames": 200, "permuted_names": 60, "custom_columns": 60, "rejected": 100,
             "look_alike_ids": 20, "unreadable": 100, "twins": 20})


def _raw_values(rng, n):
  kind = gen.pick(rng, ["int", "float", "text", "object", "small", "Int64"])
  v = rng.integers(0, 50, n)
  if kind == "int":
    return v, v.astype(float)
  if kind == "float":
    f = rng.gamma(1, 5, n)
    if gen.chance(rng, 0.3):
      f[0] = np.nan
    return f, f
  if kind == "text":
    f = np.round(rng.gamma(1, 5, n), 3)
    return np.array([repr(float(x)) for x in f], dtype=object), f
  if kind == "object":
    return v.astype(object), v.astype(float)
  if kind == "small":
    return v.astype(np.int16), v.astype(float)
  return pd.array(v, dtype="Int64"), v.astype(float)


@P01.scenario(quick=300, thorough=8000)
def rename_and_parse(ctx, rng):
  n = gen.size(rng, 1, 30, 12000)
  requested = [c for c in STANDARD if gen.chance(rng, 0.6)]
  roles = ["item_id", "date"] + requested
  scheme = gen.pick(rng, ["permuted", "same", "other", "mixed"])
  if scheme == "permuted":
    names = list(rng.permutation(np.array(roles, dtype=object)))
    ctx.event("permuted_names")
  elif scheme == "same":
    names = list(roles)
  elif scheme == "other":
    names = [f"raw {r}" for r in roles]
  else:
    pool = list(rng.permutation(np.array(STANDARD + ["item_id", "date", "x", "y", "z"], dtype=object)))
    names = pool[: len(roles)]
  customs, functions = {}, {}
  used = set(names)
  for c in ["margin", "revenue", "score"]:
    if gen.chance(rng, 0.4):
      raw = gen.pick(rng, [c, "raw_" + c, c.upper()])
      if raw in used:
        continue
      used.add(raw)
      customs[c] = raw
      if gen.chance(rng, 0.5):
        functions[c] = gen.pick(rng, [lambda x: x.astype(float) * 2, lambda x: x.astype(str) + "!"])
  if customs:
    ctx.event("custom_columns")

  numeric_ids = gen.chance(rng, 0.3)
  ids = rng.integers(0, 10**9, n) if numeric_ids else np.array(gen.item_ids(rng, n), dtype=object)
  if not numeric_ids and gen.chance(rng, 0.25):
    # Ids that only differ in case, padding or white space are different items.
    ids = np.array([gen.pick(rng, [" ", "", "00", "\t"]) + gen.pick(rng, [str.upper, str.lower, str.title])(i)
                    + gen.pick(rng, ["", " ", ".0", "\u00a0"]) for i in ids], dtype=object)
    ctx.event("look_alike_ids")
  days = [dt.date(2023, 1, 1) + dt.timedelta(days=int(d)) for d in rng.integers(0, 900, n)]
  date_kind = gen.pick(rng, ["text", "timestamp", "date"])
  dates = {"text": [d.isoformat() for d in days],
           "timestamp": pd.to_datetime([d.isoformat() for d in days]),
           "date": np.array(days, dtype=object)}[date_kind]
  columns, want = {}, {}
  for role, name in zip(roles, names):
    if role == "item_id":
      columns[name], want[role] = ids, [str(i) for i in ids]
    elif role == "date":
      columns[name], want[role] = dates, [pd.Timestamp(d) for d in days]
    else:
      columns[name], want[role] = _raw_values(rng, n)
  for c, raw in customs.items():
    columns[raw] = rng.integers(0, 9, n)
    parsed = pd.Series(columns[raw])
    want[c] = (functions[c](parsed) if c in functions else parsed).tolist()
  if gen.chance(rng, 0.25):
    # The same raw column under several names.
    ctx.event("twins")
    role = gen.pick(rng, roles)
    customs["twin"] = names[roles.index(role)]
    want["twin"] = pd.Series(columns[customs["twin"]]).tolist()
    spare = [c for c in STANDARD if c not in requested]
    if requested and spare and gen.chance(rng, 0.6):
      role, other = gen.pick(rng, requested), gen.pick(rng, spare)
      roles.append(other)
      names.append(names[roles.index(role)])
      want[other] = want[role]
  for extra in ["noise", "clicks", "date", "revenue"]:
    if extra not in columns and gen.chance(rng, 0.5):
      columns[extra] = ["junk"] * n
  order = list(rng.permutation(np.array(list(columns), dtype=object)))
  data = pd.DataFrame({c: columns[c] for c in order})
  data.index = gen.row_labels(rng, n)
  before = gen.frame_fingerprint(data)
  arguments = {f"{role}_column": name for role, name in zip(roles, names)}
  out = dp.standardize_column_names_and_types(
      data, custom_columns=customs or None, custom_parse_functions=functions or None, **arguments)
  ctx.event("frames")
  ctx.distinct(scheme, sorted(arguments.items()), sorted(customs.items()))
  ctx.equal(gen.frame_fingerprint(data), before, "the raw data was modified")
  ctx.equal(sorted(out.columns), sorted(want), "wrong output columns", arguments=arguments)
  ctx.equal(out.index.tolist(), data.index.tolist(), "rows were reordered or relabelled")
  for role, values in want.items():
    got = out[role]
    if role in STANDARD:
      ctx.check(got.dtype == float, f"{role} is not floating point", dtype=str(got.dtype))
      ctx.close(got.to_numpy(), np.asarray(values, dtype=float), f"{role} lost its values",
                rtol=1e-15, arguments=arguments)
    else:
      ctx.equal(list(map(repr, got.tolist())), list(map(repr, values)), f"{role} lost its values", arguments=arguments)
  ctx.check(pd.api.types.is_datetime64_any_dtype(out["date"]), "dates are not dates")
  ctx.check(all(isinstance(i, str) for i in out["item_id"]), "item ids are not text")
  ctx.sample(arguments=arguments, customs=customs, rows=n)


@P01.scenario(quick=60, thorough=1000)
def rejected_arguments(ctx, rng):
  n = 5
  data = pd.DataFrame({"i": gen.item_ids(rng, n), "d": ["2023-01-01"] * n, "c": range(n), "m": range(n)})
  f = dp.standardize_column_names_and_types
  clash = gen.pick(rng, STANDARD + ["item_id", "date"])
  with ctx.raises(ValueError, "a custom column clashes with a standard one", clash=clash):
    f(data, item_id_column="i", date_column="d", custom_columns={clash: "m"})
  with ctx.raises(ValueError, "a parse function for a standard column", clash=clash):
    f(data, item_id_column="i", date_column="d", custom_columns={"m": "m"},
      custom_parse_functions={clash: lambda x: x})
  with ctx.raises(ValueError, "a parse function for an unknown custom column"):
    f(data, item_id_column="i", date_column="d", custom_columns={"m": "m"},
      custom_parse_functions={"k": lambda x: x})
  missing = gen.pick(rng, ["item_id", "date"] + STANDARD)
  arguments = dict(item_id_column="i", date_column="d", clicks_column="c")
  arguments[missing + "_column"] = "not there"
  with ctx.raises(ValueError, "a missing input column", missing=missing):
    f(data, **arguments)
  with ctx.raises(ValueError, "a missing custom input column"):
    f(data, item_id_column="i", date_column="d", custom_columns={"m": "not there"})
  # What is neither a number nor a date is an error, and never something else.
  column = gen.pick(rng, STANDARD + ["date"])
  for junk in ["abc", "2023-13-45"] + (["1.2.3", "12 EUR"] if column != "date" else []):
    broken = data.astype({"c": object, "d": object})
    broken.iloc[int(rng.integers(n)), 1 if column == "date" else 2] = junk
    arguments = dict(item_id_column="i", date_column="d", clicks_column=None)
    if column != "date":
      arguments[column + "_column"] = "c"
    kind, got = core.outcome(f, broken, **arguments)
    ctx.check(kind == "error" and isinstance(got, ValueError), "an unreadable value was accepted", column=column, value=junk)
    ctx.event("unreadable")
  ctx.event("rejected", 5)


# ------------------------------------------------------------------------ P02
P02 = PROPS["P02"] = core.Property(
    "P02",
    rule="Sparse item-by-date frames (from 2% to 100% present), shuffled, with float, integer, "
    "boolean and no metrics. distinct = (shape, number present, dtypes).",
    require={"frames": 150, "rows_added": 1000, "rows_kept": 1000, "repeated": 200, "many_rows": 50000})


@P02.scenario(quick=300, thorough=8000)
def fill(ctx, rng):
  n_items, n_dates = gen.size(rng, 1, 25, 500, 0.03), gen.size(rng, 1, 20, 400, 0.06)
  item_col, date_col = gen.pick(rng, [("item_id", "date"), ("id", "day"), ("date", "item_id")])
  numeric = gen.chance(rng, 0.2)
  ids = list(range(n_items)) if numeric else gen.item_ids(rng, n_items)
  start = gen.start_date(rng)
  gap = gen.pick(rng, [1, 1, 7, 3])
  dates = [pd.Timestamp(start + dt.timedelta(days=gap * d)) for d in range(n_dates)]
  present = rng.random((n_items, n_dates)) < gen.pick(rng, [0.02, 0.3, 0.7, 0.95, 1.0])
  if not present.any():
    present[0, 0] = True
  cells = [(i, d) for i in range(n_items) for d in range(n_dates) if present[i, d]]
  rng.shuffle(cells)
  metrics = {}
  for name in ["clicks", "cost", "count", "flag", "zero"]:
    if gen.chance(rng, 0.6):
      m = len(cells)
      metrics[name] = {"clicks": rng.gamma(1, 3, m), "cost": -rng.gamma(1, 3, m),
                       "count": rng.integers(-2, 9, m), "flag": rng.random(m) < 0.5,
                       "zero": np.zeros(m)}[name]
  data = pd.DataFrame({item_col: [ids[i] for i, _ in cells], date_col: [dates[d] for _, d in cells],
                       **metrics})
  data = gen.maybe_categorical(rng, data, item_col)
  if gen.chance(rng, 0.3):
    data.index = gen.row_labels(rng, len(data))
  if gen.chance(rng, 0.3):
    data = data[list(rng.permutation(np.array(data.columns, dtype=object)))]
  before = gen.frame_fingerprint(data)
  out = dp.fill_missing_rows_with_zeros(data, item_id_column=item_col, date_column=date_col)
  ctx.event("frames")
  ctx.distinct(n_items, n_dates, len(cells), sorted(metrics))
  ctx.equal(gen.frame_fingerprint(data), before, "the data was modified")
  ctx.equal(sorted(out.columns), sorted(data.columns), "wrong columns")
  known = {(a, b): k for k, (a, b) in enumerate(zip(data[item_col], data[date_col]))}
  items = {a for a, _ in known}
  days = {b for _, b in known}
  got = list(zip(out[item_col], out[date_col]))
  ctx.equal(len(got), len(set(got)), "a combination appears twice")
  ctx.check(set(got) == {(a, b) for a in items for b in days}, "not all combinations are there",
            n=len(got), want=len(items) * len(days))
  for name in metrics:
    ctx.equal(str(out[name].dtype), str(data[name].dtype), f"{name} changed its type")
    raw = data[name].tolist()
    values = out[name].tolist()
    for key, value in zip(got, values):
      if key in known:
        ctx.event("rows_kept")
        ctx.check(value == raw[known[key]], f"{name} of a present row changed", got=value,
                  want=raw[known[key]])
      else:
        ctx.event("rows_added")
        ctx.check(value == 0, f"{name} of an added row is not 0", got=value)
    if name != "flag":
      ctx.close(float(sum(values)), float(sum(raw)), f"the total of {name} changed", atol=1e-9)
  again = dp.fill_missing_rows_with_zeros(out, item_id_column=item_col, date_column=date_col)
  rows = lambda f: sorted(map(repr, f[sorted(out.columns)].itertuples(index=False)))
  ctx.check(rows(again) == rows(out), "filling twice is not filling once")
  ctx.sample(items=len(items), dates=len(days), present=len(cells), metrics=sorted(metrics))


@P02.scenario(quick=2, thorough=12)
def many_rows(ctx, rng):
  """A long history of many items, compared as a whole."""
  n_items = int(rng.integers(150, 700))
  n_dates = int(gen.pick(rng, [rng.integers(60, 120), rng.integers(250, 500)]))
  start = gen.start_date(rng)
  ids = np.array(gen.item_ids(rng, n_items), dtype=object)
  present = rng.random((n_items, n_dates)) < gen.pick(rng, [0.3, 0.8])
  present[:, 0] = present[0, :] = True
  i, d = np.nonzero(present)
  data = pd.DataFrame({"item_id": ids[i], "date": pd.Timestamp(start) + pd.to_timedelta(d, unit="D"),
                       "cost": rng.gamma(1, 3, len(i)) + 0.1, "clicks": rng.integers(1, 2**40, len(i))})
  data = gen.shuffled(rng, data)
  with core.captured():
    out = dp.fill_missing_rows_with_zeros(data)
  ctx.event("frames")
  ctx.event("many_rows", len(out))
  ctx.distinct("many", n_items, n_dates)
  ctx.equal(len(out), n_items * n_dates, "wrong number of rows")
  for metric in ("cost", "clicks"):
    ctx.equal(str(out[metric].dtype), str(data[metric].dtype), f"{metric} changed its type")
  both = out.merge(data, on=["item_id", "date"], how="outer", suffixes=("", "_raw"), indicator="side")
  ctx.equal(len(both), n_items * n_dates, "a combination is missing, new or there twice")
  known = (both["side"] == "both").to_numpy()
  ctx.equal(int(known.sum()), len(data), "a present row was lost")
  for metric in ("cost", "clicks"):
    got, raw = both[metric].to_numpy(), both[metric + "_raw"].to_numpy()
    ctx.check(np.array_equal(got[known], raw[known]), f"{metric} of a present row changed")
    ctx.check(np.all(got[~known] == 0), f"{metric} of an added row is not 0")


@P02.scenario(quick=60, thorough=1000)
def repeated_rows(ctx, rng):
  """Rows of the same item and date are all kept, so that validation can find them."""
  n_items, n_dates = gen.size(rng, 1, 8, 60), gen.size(rng, 1, 8, 40)
  ids = gen.item_ids(rng, n_items)
  start = gen.start_date(rng)
  m = gen.size(rng, 2, 60, 2000)
  data = pd.DataFrame({
      "item_id": [gen.pick(rng, ids) for _ in range(m)],
      "date": [pd.Timestamp(start + dt.timedelta(days=int(d))) for d in rng.integers(0, n_dates, m)],
      "clicks": rng.poisson(2, m).astype(float), "cost": rng.gamma(1, 3, m)})
  out = dp.fill_missing_rows_with_zeros(data)
  ctx.event("repeated", int(data.duplicated(["item_id", "date"]).sum()))
  ctx.distinct(n_items, n_dates, m)
  rows = lambda f: collections.Counter(f[["item_id", "date", "clicks", "cost"]].itertuples(index=False, name=None))
  want = rows(data)
  present = set(zip(data["item_id"], data["date"]))
  for i in set(data["item_id"]):
    for d in set(data["date"]):
      if (i, d) not in present:
        want[(i, d, 0.0, 0.0)] = 1
  ctx.check(rows(out) == want, "repeated rows were lost or multiplied", rows=len(out), want=sum(want.values()))


@P02.scenario(quick=16, thorough=100)
def missing_columns(ctx, rng):
  data = pd.DataFrame({"item_id": ["a"], "date": [pd.Timestamp("2023-01-01")], "clicks": [1.0]})
  for missing in ("item_id", "date"):
    with ctx.raises(ValueError, "missing column", missing=missing):
      dp.fill_missing_rows_with_zeros(data.drop(columns=missing))
  with ctx.raises(ValueError, "missing renamed column"):
    dp.fill_missing_rows_with_zeros(data, item_id_column="item")


# ------------------------------------------------------------------------ P03
P03 = PROPS["P03"] = core.Property(
    "P03",
    rule="Daily and weekly calendars around leap days, year ends and weekends, starting before, "
    "at or after the start date, with partial first and last weeks; grouped with extra "
    "columns. distinct = (first date, start date, days, frequency).",
    require={"dates": 3000, "negative_weeks": 200, "split_days": 100, "partial_weeks_dropped": 50,
             "weekly_passthrough": 30, "irregular_rejected": 20, "weeks_conserved": 300, "long_calendars": 10,
             "many_rows": 50000, "without_category": 15})


def _calendar(rng, frequency):
  start = gen.start_date(rng)
  lead = int(rng.integers(-5, 25))
  n = gen.size(rng, 2, 60, 800, 0.05) if frequency == 1 else gen.size(rng, 2, 9, 120, 0.05)
  first = start - dt.timedelta(days=lead if frequency == 1 else 7 * (lead // 7))
  return start, [first + dt.timedelta(days=frequency * d) for d in range(n)]


@P03.scenario(quick=250, thorough=6000)
def weeks_and_totals(ctx, rng):
  frequency = gen.pick(rng, [1, 1, 1, 7])
  start, days = _calendar(rng, frequency)
  explicit = gen.chance(rng, 0.6)
  anchor = start if explicit else days[0]
  n_items = gen.size(rng, 1, 12, 300 if len(days) < 60 else 20)
  ids = gen.item_ids(rng, n_items)
  n = len(days)
  data = pd.DataFrame({
      "item_id": np.repeat(np.array(ids, dtype=object), n),
      "date": pd.to_datetime(np.tile(np.array([d.isoformat() for d in days]), n_items)),
      "clicks": rng.gamma(1, 4, n * n_items),
      "count": rng.integers(0, 9, n * n_items)})
  extra = gen.chance(rng, 0.3)
  if extra:
    category = gen.pick(rng, [[0, 1, 2], [0, 1, 2], [0, None, 2], ["x", "y", "z"], ["x", None, "z"]])
    data["category"] = [category[hash_ % 3] for hash_ in np.repeat(np.arange(n_items), n)]
    data = gen.maybe_categorical(rng, data, "category")
    ctx.event("without_category", None in category and n_items > 1)
  data = data.rename(columns={"item_id": "offer", "date": "tag"} if gen.chance(rng, 0.4) else {})
  item_col, date_col = data.columns[:2]
  data = gen.maybe_categorical(rng, data, item_col)
  if gen.chance(rng, 0.25) and frequency == 1:
    # Several rows of an item on the same day, and days an item has no row.
    split = data.sample(frac=gen.pick(rng, [0.02, 0.3]), random_state=int(rng.integers(2**31)))
    fewer = data.drop(data.index[rng.random(len(data)) < gen.pick(rng, [0, 0, 0.05])])
    if len(set(fewer[date_col])) == n:
      data = pd.concat([fewer, split, split[: len(split) // 2]], ignore_index=True)
      ctx.event("split_days", len(split))
  if gen.chance(rng, 0.6):
    data = gen.shuffled(rng, data)
  if gen.chance(rng, 0.5):
    data = data.reset_index(drop=True)
  elif gen.chance(rng, 0.3):
    data.index = gen.row_labels(rng, len(data))
  names = gen.pick(rng, [("week_id", "week_start"), ("w", "s")])
  out = dp.add_week_id_and_week_start(
      data.copy(), date_col, start.isoformat() if explicit else None,
      week_id_column=names[0], week_start_column=names[1])
  ctx.distinct(days[0], anchor, n, frequency, n_items)
  ctx.equal(len(out), len(data), "rows were lost")
  for column in data.columns:
    ctx.equal(out[column].astype(object).where(out[column].notna(), None).tolist(),
              data[column].astype(object).where(data[column].notna(), None).tolist(), f"{column} changed")
  for date, week, begins in zip(out[date_col], out[names[0]], out[names[1]]):
    want = ref.week_of(date, anchor)
    ctx.event("dates")
    ctx.event("negative_weeks", want < 0)
    ctx.equal(int(week), want, "wrong week", date=str(date), start=str(anchor))
    ctx.equal(ref.as_date(pd.Timestamp(begins)), ref.week_start(want, anchor), "wrong week start",
              date=str(date), start=str(anchor))
  ctx.check(pd.api.types.is_integer_dtype(out[names[0]]), "week ids are not integers")

  before = gen.frame_fingerprint(out)
  grouped = dp.group_data_to_complete_weeks(
      out, date_column=date_col, item_id_column=item_col, week_id_column=names[0],
      week_start_column=names[1], extra_group_columns=["category"] if extra else None)
  ctx.equal(gen.frame_fingerprint(out), before, "grouping modified its input")
  ctx.check(date_col not in grouped.columns and "days_in_week" not in grouped.columns,
            "left-over columns", columns=list(grouped.columns))
  ctx.equal(sorted(grouped.columns), sorted(c for c in out.columns if c != date_col),
            "wrong columns after grouping")
  if frequency == 7:
    ctx.event("weekly_passthrough")
    for column in grouped.columns:
      ctx.equal(grouped[column].astype(object).where(grouped[column].notna(), None).tolist(),
                out[column].astype(object).where(out[column].notna(), None).tolist(), f"weekly data: {column} changed")
    return
  sums = collections.defaultdict(lambda: [0.0, 0, set()])
  for row in out.itertuples(index=False):
    d = row._asdict() if hasattr(row, "_asdict") else None
    key = (d[item_col], ref.week_of(d[date_col], anchor))
    sums[key][0] += d["clicks"]
    sums[key][1] += d["count"]
    sums[key][2].add(ref.as_date(pd.Timestamp(d[date_col])))
  want = {k: v for k, v in sums.items() if len(v[2]) == 7}
  ctx.event("partial_weeks_dropped", len({k[1] for k in sums}) > len({k[1] for k in want}))
  got = {}
  for row in grouped.itertuples(index=False):
    d = row._asdict()
    key = (d[item_col], int(d[names[0]]))
    ctx.check(key not in got, "an item has two rows in a week", key=key)
    got[key] = d
  ctx.check(set(got) == set(want), "not exactly the complete weeks were kept",
            got=sorted({k[1] for k in got}), want=sorted({k[1] for k in want}))
  for key, d in got.items():
    ctx.event("weeks_conserved")
    ctx.close(d["clicks"], want[key][0], "a weekly total is not the sum of its days", rtol=1e-9)
    ctx.equal(int(d["count"]), want[key][1], "a weekly total is not the sum of its days")
    ctx.equal(ref.as_date(pd.Timestamp(d[names[1]])), ref.week_start(key[1], anchor),
              "wrong week start after grouping")
    if extra:
      want_category = category[ids.index(key[0]) % 3]
      ctx.check(pd.isna(d["category"]) if want_category is None else d["category"] == want_category,
                "an extra group column changed", got=str(d["category"]), want=want_category)
  ctx.sample(first=str(days[0]), start=str(anchor), days=n, weeks=sorted({k[1] for k in got}))


@P03.scenario(quick=5, thorough=30)
def many_rows(ctx, rng):
  """Years of daily data of many items, in the order a database may give them."""
  n_items, n_days = int(rng.integers(40, 300)), int(gen.pick(rng, [rng.integers(40, 120), rng.integers(300, 900)]))
  start = gen.start_date(rng)
  lead = int(rng.integers(0, n_days // 2))
  first = start - dt.timedelta(days=lead)
  explicit = gen.chance(rng, 0.25)
  ids = np.array(gen.item_ids(rng, n_items), dtype=object)
  k = np.repeat(np.arange(n_items), n_days)
  day = np.tile(np.arange(n_days), n_items)
  data = pd.DataFrame({"item_id": ids[k], "date": pd.Timestamp(first) + pd.to_timedelta(day, unit="D"),
                       "clicks": rng.gamma(1, 4, len(k)), "k": k, "day": day})
  order = gen.pick(rng, ["newest first", "newest first", "random", "by item"])
  if order == "newest first":
    data = data.sort_values("day", ascending=False, kind="stable")
  elif order == "random":
    data = gen.shuffled(rng, data)
  offset = data["day"].to_numpy() - (lead if explicit else 0)
  values = np.zeros((n_items, n_days))
  values[data["k"], data["day"]] = data["clicks"]
  plain = data[["item_id", "date", "clicks"]].copy()
  with core.captured():
    out = dp.add_week_id_and_week_start(plain, "date", start.isoformat() if explicit else None)
    grouped = dp.group_data_to_complete_weeks(out, date_column="date", item_id_column="item_id",
                                              week_id_column="week_id", week_start_column="week_start")
  anchor = pd.Timestamp(start if explicit else first)
  ctx.event("dates", len(out))
  ctx.event("many_rows", len(out))
  ctx.distinct("many", n_items, n_days, order)
  ctx.check(np.array_equal(out["week_id"].to_numpy(), offset // 7), "wrong weeks", order=order, rows=len(out))
  ctx.check(np.array_equal(out["week_start"].to_numpy(),
                           (anchor + pd.to_timedelta(7 * (offset // 7), unit="D")).to_numpy()), "wrong week starts")
  weeks = (np.arange(n_days) - (lead if explicit else 0)) // 7
  complete = [w for w in range(weeks[0], weeks[-1] + 1) if (weeks == w).sum() == 7]
  wide = grouped.pivot(index="item_id", columns="week_id", values="clicks")
  ctx.equal(len(grouped), n_items * len(complete), "wrong number of weekly rows")
  ctx.equal(list(wide.columns), complete, "not exactly the complete weeks were kept")
  want = np.stack([values[:, weeks == w].sum(axis=1) for w in complete], axis=1)
  ctx.close(wide.loc[list(ids)].to_numpy(), want, "a weekly total is not the sum of its days", rtol=1e-9)


@P03.scenario(quick=60, thorough=1500)
def irregular_dates(ctx, rng):
  start, days = _calendar(rng, gen.pick(rng, [1, 7]))
  while len(days) < 5:
    start, days = _calendar(rng, 1)
  if gen.chance(rng, 0.4):
    step = gen.pick(rng, [1, 1, 7])
    days = [days[0] + dt.timedelta(days=step * d) for d in range(int(rng.integers(60, 800)))]
    ctx.event("long_calendars")
  kind = gen.pick(rng, ["missing", "missing", "mixed", "two", "shifted"])
  if kind == "missing":
    del days[gen.pick(rng, [1, len(days) - 2, int(rng.integers(1, len(days) - 1))])]
  elif kind == "mixed":
    # One gap of another length, at the end or anywhere.
    step = (days[1] - days[0]).days
    gap = dt.timedelta(days=gen.pick(rng, [x for x in (1, 2, 3, 6, 7, 7, 8, 14) if x != step]))
    k = gen.pick(rng, [len(days), int(rng.integers(1, len(days)))])
    days = days[:k] + [d + gap - dt.timedelta(days=step) for d in
                       days[k:] or [days[-1] + dt.timedelta(days=step)]]
  elif kind == "two":
    days = [days[0] + dt.timedelta(days=2 * d) for d in range(6)]
  else:
    days = [days[0] + dt.timedelta(days=7 * d + (d == 3)) for d in range(6)]
  data = pd.DataFrame({"item_id": "a", "date": pd.to_datetime([d.isoformat() for d in days]),
                       "clicks": 1.0})
  data = dp.add_week_id_and_week_start(data, "date")
  ctx.event("irregular_rejected")
  ctx.distinct(kind, tuple(days))
  with ctx.raises(ValueError, "dates that are neither daily nor weekly", days=[str(d) for d in days]):
    dp.group_data_to_complete_weeks(
        data, date_column="date", item_id_column="item_id", week_id_column="week_id",
        week_start_column="week_start")


# ------------------------------------------------------------------------ P09
P09 = PROPS["P09"] = core.Property(
    "P09",
    rule="Frames with single or two-level columns, continuous, tied, zero and negative values, "
    "trimmed with all pairs of fractions. distinct = (n, fractions, kind).",
    require={"trimmed": 200, "untouched": 20, "tied_cut": 40, "random_ties": 10, "rejected": 20},
    assumptions=["Row labels are unique (trimming selects rows by label)."])


@P09.scenario(quick=400, thorough=12000)
def trim(ctx, rng):
  n = gen.size(rng, 1, 160, 12000)
  kind = gen.pick(rng, ["continuous", "ties", "zeros", "constant", "negative", "tiny", "huge", "last digits"])
  x = {"continuous": rng.lognormal(0, 1, n), "ties": rng.integers(0, 6, n).astype(float),
       "zeros": rng.integers(0, 9, n) * (rng.random(n) < 0.3) * 1.0, "constant": np.full(n, 3.0),
       "negative": rng.normal(0, 1, n), "tiny": rng.lognormal(0, 1, n) * 1e-9, "huge": rng.lognormal(0, 1, n) * 1e12,
       "last digits": 1e6 + rng.permutation(n) * gen.pick(rng, [1e-3, 1e-4, 1e-6])}[kind]
  top = gen.pick(rng, [0.0, 0.1, 0.07, 0.29, 0.3, 0.5, round(float(rng.random()) * 0.6, 3)])
  bottom = gen.pick(rng, [0.0, 0.1, 0.03, 0.3, round(float(rng.random()) * 0.39, 3)])
  if top + bottom >= 1:
    bottom = 0.0
  labels = gen.pick(rng, [list(range(n)), [f"i{k}" for k in rng.permutation(n)],
                          list(rng.permutation(n) * 2)])
  multi = gen.chance(rng, 0.4)
  order_by = ("m", "pretest") if multi else gen.pick(rng, ["clicks", "cost"])
  data = pd.DataFrame({order_by if not multi else "a": x, "row": np.arange(n), "other": rng.random(n)},
                      index=pd.Index(labels, name="item_id"))
  if multi:
    data.columns = pd.MultiIndex.from_tuples([order_by, ("m", "test"), ("k", "pretest")])
  else:
    data = data[list(rng.permutation(np.array(data.columns, dtype=object)))]
  rows = lambda f: f[("m", "test") if multi else "row"].tolist()
  others = lambda f: f[("k", "pretest") if multi else "other"].tolist()
  before = gen.frame_fingerprint(data)
  seed = int(rng.integers(2**31))
  out = dp.trim_outliers(data, order_by, top, bottom, np.random.default_rng(seed))
  ctx.distinct(n, top, bottom, kind)
  ctx.equal(gen.frame_fingerprint(data), before, "trimming modified its input")
  n_top, n_bottom = ref.n_floor(top, n), ref.n_floor(bottom, n)
  ctx.equal(len(out), n - n_top - n_bottom, "wrong number of rows trimmed", n=n, top=top, bottom=bottom)
  ctx.equal(list(out.columns), list(data.columns), "columns changed")
  kept = rows(out)
  if n_top + n_bottom == 0:
    ctx.event("untouched")
    ctx.equal(gen.frame_fingerprint(out), before, "nothing is to be trimmed but the data changed")
    return
  ctx.event("trimmed")
  kept = [int(k) for k in kept]
  ctx.equal(kept, sorted(kept), "the remaining rows were reordered")
  ctx.equal(len(set(kept)), len(kept), "a row was duplicated")
  full = others(data)
  ctx.equal(others(out), [full[k] for k in kept], "the remaining rows changed")
  ctx.equal(out.index.tolist(), [labels[k] for k in kept], "row labels changed")
  ordered = np.sort(x)
  ctx.equal(np.sort(x[kept]), ordered[n_bottom: n - n_top], "not the extreme rows were trimmed",
            top=top, bottom=bottom)
  ctx.equal(out[order_by].tolist(), x[kept].tolist(), "values changed")
  again = dp.trim_outliers(data, order_by, top, bottom, np.random.default_rng(seed))
  ctx.equal(rows(again), rows(out), "the same random state trims other rows")
  tied = ((n_top and ordered[n - n_top] == ordered[n - n_top - 1])
          or (n_bottom and ordered[n_bottom - 1] == ordered[n_bottom]))
  if tied:
    ctx.event("tied_cut")
  if kind == "constant" and n >= 30 and n_top + n_bottom >= 5:
    # Ties are broken at random, not by position.
    choices = {tuple(rows(dp.trim_outliers(data, order_by, top, bottom, np.random.default_rng(s))))
               for s in range(6)}
    ctx.event("random_ties")
    ctx.check(len(choices) > 1, "ties are not broken at random", n=n, top=top, bottom=bottom)
  ctx.sample(n=n, top=top, bottom=bottom, kind=kind, kept=len(kept))


@P09.scenario(quick=4, thorough=40)
def fair_ties(ctx, rng):
  """Among tied rows every row is trimmed equally often."""
  n, reps = 20, 1200
  data = pd.DataFrame({"clicks": np.zeros(n), "row": range(n)})
  counts = np.zeros(n)
  top, bottom = gen.pick(rng, [(0.25, 0.0), (0.0, 0.25), (0.2, 0.05)])
  base = int(rng.integers(2**31))
  for s in range(reps):
    out = dp.trim_outliers(data, "clicks", top, bottom, np.random.default_rng(base + s))
    counts[out["row"].to_numpy()] += 1
  ctx.event("fairness_draws", reps)
  z = np.abs(counts - 0.75 * reps) / np.sqrt(reps * 0.75 * 0.25)
  ctx.check(z.max() < 6, "tied rows are not trimmed equally often", counts=counts, top=top, bottom=bottom)


@P09.scenario(quick=40, thorough=500)
def invalid_fractions(ctx, rng):
  data = pd.DataFrame({"clicks": rng.random(10)})
  top, bottom = gen.pick(rng, [(-0.1, 0.0), (0.0, -0.1), (-1e-9, 0.2), (0.5, 0.5), (1.0, 0.0),
                               (0.0, 1.0), (0.7, 0.4), (-0.1, 1.0), (1.2, -0.3), (0.75, 0.25)])
  ctx.event("rejected")
  with ctx.raises(ValueError, "invalid fractions", top=top, bottom=bottom):
    dp.trim_outliers(data, "clicks", top, bottom, np.random.default_rng(0))


# ------------------------------------------------------------------------ P14
P14 = PROPS["P14"] = core.Property(
    "P14",
    rule="Frames with zero, tiny, negative, constant and missing metrics and several flags at "
    "once. distinct = (metrics, constancy).",
    require={"flags": 2000, "constant_flags": 30, "varying_flags": 100})


@P14.scenario(quick=200, thorough=4000)
def flags(ctx, rng):
  n = gen.size(rng, 1, 60, 6000)
  kinds = {"clicks": rng.poisson(gen.pick(rng, [0.0, 0.3, 3.0]), n).astype(float),
           "impressions": rng.poisson(2.0, n), "cost": rng.gamma(1, 1, n) * (rng.random(n) < 0.5) * 1e-12,
           "margin": rng.normal(0, 1, n), "none": np.zeros(n), "all": np.ones(n),
           "minus": -np.ones(n) * (rng.random(n) < 0.5)}
  data = pd.DataFrame(dict(item_id=gen.item_ids(rng, n), **kinds))
  chosen = [k for k in kinds if gen.chance(rng, 0.6)]
  metrics = {k: f"at_least_one_{k}" for k in chosen}
  original = data.copy(deep=True)
  with core.captured() as printed:
    out = dp.add_at_least_one_metrics(data.copy(), metrics)
  text = printed.getvalue()
  ctx.equal(sorted(out.columns), sorted(list(original.columns) + list(metrics.values())), "wrong columns")
  for column in original.columns:
    ctx.equal(out[column].tolist(), original[column].tolist(), f"{column} changed")
  for metric, name in metrics.items():
    want = [1 if v > 0 else 0 for v in original[metric]]
    ctx.event("flags", n)
    ctx.equal(out[name].tolist(), want, f"{name} is not the flag of {metric}")
    ctx.check(pd.api.types.is_integer_dtype(out[name]), f"{name} is not an integer")
    constant = len(set(want)) == 1
    ctx.event("constant_flags" if constant else "varying_flags")
    ctx.distinct(metric, constant, n)
    warned = any(name in line and "WARNING" in line for line in text.splitlines())
    ctx.equal(warned, constant, f"a warning is printed iff {name} is constant", text=text)
  ctx.sample(metrics=metrics, rows=n)
