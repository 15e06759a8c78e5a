"""S01, S02: trimmed statistics and the covariate adjustment."""

import numpy as np

from feedx import statistics

from mon import core
from mon import gen
from mon import ref

PROPS = {}

# ------------------------------------------------------------------------ S01
S01 = PROPS["S01"] = core.Property(
    "S01",
    rule="Samples of 3 to 400 values (any scale, offset and sign, integers, ties where the choice "
    "of the trimmed values does not matter) and stacks of 2 to 5 aligned samples, quantiles from "
    "0 to just below 0.5. distinct = (shape, quantile, number trimmed).",
    require={"samples": 200, "stacks": 150, "trimmed": 200, "odd_floor": 10, "rejected": 60, "last_digits": 15, "small_integers": 10})


def _quantile(rng, n):
  q = gen.pick(rng, [0.0, 0.01, 0.05, 0.1, 0.2, 0.25, 0.29, 0.3, 0.35, 0.45, 0.49, 0.4999,
                     float(rng.uniform(0, 0.5)), float(rng.integers(0, n)) / n])
  # Fractions such as 0.29 * 100 are a little below or above a whole number.
  if q >= 0.5 or n - 2 * ref.n_floor(q, n) < 1:
    return 0.0
  return q


@S01.scenario(quick=900, thorough=20000)
def definitions(ctx, rng):
  n = int(gen.pick(rng, [3, 5, 10, 50, 100, 200, gen.size(rng, 3, 400, 20000)]))
  q = _quantile(rng, n)
  rows = int(gen.pick(rng, [1, 1, 2, 3, 5]))
  g = ref.n_floor(q, n)
  ctx.event("odd_floor", abs(q * n - round(q * n)) < 1e-9 and round(q * n) != g)
  if rows == 1:
    x = gen.discrete_sample(rng, n) if gen.chance(rng, 0.3) else gen.sample(rng, n)
    values = x if gen.chance(rng, 0.7) else x[None, :]
    if gen.chance(rng, 0.1):
      values = np.asarray(rng.integers(-50, 50, n))
    elif gen.chance(rng, 0.1):
      # Differences that only show in the last digits, and very large numbers.
      values = gen.pick(rng, [1e9 + rng.normal(0, 10, n), 2**53 - rng.permutation(n) * 1.0, 1e40 * rng.normal(0, 1, n)])
      ctx.event("last_digits")
  else:
    first = gen.sample(rng, n)
    others = []
    for _ in range(rows - 1):
      other = gen.discrete_sample(rng, n) if gen.chance(rng, 0.2) else gen.sample(rng, n)
      if gen.chance(rng, 0.4):
        other = other + first * rng.normal() * (np.std(other) / np.std(first))
      others.append(other)
    values = np.stack([first] + others)
    ctx.event("stacks")
  if values.ndim == 1:
    values = gen.form(rng, values)
    ctx.event("small_integers", values.dtype.kind in "iu" and values.dtype.itemsize < 8)
  ctx.event("samples")
  ctx.event("trimmed", g > 0)
  ctx.distinct(values.shape, q, g)
  before = values.copy()
  with core.captured():
    t = statistics.TrimmedArray(values, q)
  want = ref.Trimmed(values, q)
  flat = values.ndim == 1 or values.shape[0] == 1
  shape = (lambda a: float(a[0])) if flat else (lambda a: a)
  size = np.abs(np.atleast_2d(values)).max(axis=1).astype(float)
  noise = 1e-13 * size
  ctx.equal(len(t), want.h, "wrong trimmed size", n=n, q=q)
  ctx.equal(t.n_trim, want.g, "wrong number trimmed", n=n, q=q)
  ctx.equal(t.original_sample_size, n, "wrong original size")
  ctx.close(t.mean(), shape(want.mean), "wrong trimmed mean", rtol=1e-9, atol=noise.max() if flat else noise, q=q, n=n)
  ctx.close(t.winsorized_mean(), shape(want.wmean), "wrong winsorized mean", rtol=1e-9,
            atol=noise.max() if flat else noise, q=q, n=n)
  ddofs = [0, 1] if want.h > 1 else [0]
  rng.shuffle(ddofs)
  for ddof in ddofs:
    cov, factor = want.cov(ddof), n / want.h * 10
    c_noise = factor * 1e-13 * np.outer(size, size)
    ctx.close(t.cov(ddof=ddof), float(cov[0, 0]) if flat else cov, "wrong winsorized covariance", rtol=1e-8,
              atol=float(c_noise[0, 0]) if flat else c_noise, q=q, n=n, ddof=ddof)
    ctx.close(t.var(ddof=ddof), shape(np.diag(cov)), "wrong winsorized variance", rtol=1e-8,
              atol=float(c_noise[0, 0]) if flat else np.diag(c_noise), q=q, n=n, ddof=ddof)
    std = np.sqrt(np.diag(cov))
    ctx.close(t.std(ddof=ddof), shape(std), "wrong winsorized standard deviation", rtol=1e-7,
              atol=float(np.sqrt(c_noise[0, 0])) * 1e-2 if flat else np.sqrt(np.diag(c_noise)) * 1e-2,
              q=q, n=n, ddof=ddof)
  kept = np.sort(np.atleast_2d(t.values_trimmed)[0])
  ctx.check(np.array_equal(kept, np.sort(want.kept[0])), "not the right values were trimmed", q=q, n=n)
  if not flat:
    pairs = sorted(map(tuple, np.asarray(t.values_trimmed).T.tolist()))
    ctx.check(pairs == sorted(map(tuple, want.kept.T.tolist())), "the rows of the stack lost their alignment", q=q, n=n)
  ctx.check(np.array_equal(values, before), "the input was modified")
  # Asking again, in another order, gives the same.
  ctx.check(np.array_equal(np.asarray(t.mean()), np.asarray(t.mean())), "not repeatable")
  perm = rng.permutation(n)
  with core.captured():
    other = statistics.TrimmedArray(np.atleast_2d(values)[:, perm], q)
  ctx.close(np.asarray(other.cov()), np.asarray(t.cov()), "depends on the order of the items", rtol=1e-7,
            atol=1e-12 * float(size.max()) ** 2 * n / want.h)
  ctx.sample(n=n, quantile=q, rows=rows, trimmed=want.g, mean=want.mean[0], variance=float(want.var()[0]))


@S01.scenario(quick=80, thorough=800)
def rejected(ctx, rng):
  x = gen.sample(rng, 20)
  ctx.event("rejected")
  q = gen.pick(rng, [-1e-12, -0.1, 0.5, 0.5000001, 0.7, 1.0, 2.0])
  with ctx.raises(ValueError, "an invalid quantile was accepted", quantile=q):
    statistics.TrimmedArray(x, q)
  with ctx.raises(ValueError, "a three dimensional array was accepted"):
    statistics.TrimmedArray(x.reshape(2, 2, 5), 0.1)
  with ctx.raises(ValueError, "a scalar was accepted"):
    statistics.TrimmedArray(np.asarray(3.0), 0.1)


# ------------------------------------------------------------------------ S02
S02 = PROPS["S02"] = core.Property(
    "S02",
    rule="Metric and covariate pairs of 10 to 400 items: correlated, uncorrelated, collinear, "
    "zero-inflated, heavy tailed, constant covariates and ones that differ for a few items only, quantiles 0 to 0.45. distinct = (kind, n, "
    "quantile).",
    require={"pairs": 300, "adjusted": 150, "trimmed": 150, "constant": 30, "collinear": 20,
             "kept_original": 3, "reference": 150, "few": 40})


@S02.scenario(quick=1500, thorough=30000)
def adjustment(ctx, rng):
  n = int(gen.pick(rng, [10, 30, 100, gen.size(rng, 10, 400, 20000)]))
  q = gen.quantile(rng, n)
  kind = gen.pick(rng, ["correlated", "correlated", "independent", "anti", "outlier", "zero-inflated",
                        "heavy", "constant", "collinear", "counts", "few"])
  continuous = True
  x = gen.sample(rng, n, gen.pick(rng, gen.KINDS))
  if kind in ("correlated", "anti", "outlier"):
    slope = rng.uniform(0.1, 3) * (-1 if kind == "anti" else 1)
    y = slope * x + rng.normal(0, np.std(x) * rng.uniform(0.05, 3), n)
    if kind == "outlier":
      k = int(rng.integers(n))
      y[k], x[k] = y.max() + 50 * np.std(y), x.min() - 50 * np.std(x)
  elif kind == "collinear":
    x = rng.normal(5, 2, n)
    y = 3 * x - 1
    continuous = False
  elif kind == "constant":
    x = np.full(n, float(gen.pick(rng, [0.0, 0.1, 1 / 3, -7, 1e9, 1e-9])))
    y = gen.sample(rng, n)
    ctx.event("constant")
  elif kind == "counts":
    x, y = gen.discrete_sample(rng, n), gen.discrete_sample(rng, n)
    continuous = False
  elif kind == "zero-inflated":
    x = rng.gamma(1, 5, n) * (rng.random(n) < 0.5)
    y = (x + rng.gamma(1, 3, n)) * (rng.random(n) < 0.7)
    continuous = False
  elif kind == "few":
    # All items but a few have the same covariate.
    x = np.full(n, gen.pick(rng, [0.0, 0.0, 2.5]))
    where = gen.pick(rng, [[0], [n - 1], rng.choice(n, 2, replace=False), rng.choice(n, max(1, n // 20), replace=False)])
    x[where] = rng.gamma(2, 5, len(where)) + 3
    y = gen.sample(rng, n) + x * rng.uniform(-2, 2)
    continuous = False
    ctx.event("few")
  elif kind == "heavy":
    x = rng.standard_t(2, n)
    y = x + rng.standard_t(2, n)
  else:
    y = gen.sample(rng, n)
  ctx.event("pairs")
  ctx.event("trimmed", ref.n_floor(q, n) > 0)
  ctx.distinct(kind, n, q)
  about = dict(kind=kind, n=n, q=q)
  y0, x0 = y.copy(), x.copy()
  given = gen.form(rng, y), gen.form(rng, x)
  with core.captured():
    z = statistics.apply_cuped_adjustment(*given, q)
  ctx.check(np.array_equal(given[0], y0) and np.array_equal(given[1], x0), "the input was modified", **about)
  z = np.asarray(z, dtype=float)
  ctx.check(z.shape == y.shape and np.all(np.isfinite(z)), "the adjusted metric is not finite", **about)
  if kind == "constant":
    ctx.close(z, y, "a constant covariate changed the metric", rtol=1e-12, **about)
    return
  if np.all(x == x[0]) or np.all(y == y[0]):
    return
  theta = abs(float(np.cov(y, x)[0, 1] / np.var(x, ddof=1)))
  size = np.abs(y).max() + 3 * theta * np.abs(x).max()
  before, after = ref.Trimmed(y, q), ref.Trimmed(z, q)
  ctx.close(after.mean[0], before.mean[0], "the mean changed", rtol=1e-9, atol=1e-12 * size, **about)
  v0, v1 = before.var()[0], after.var()[0]
  ctx.check(v1 <= v0 * (1 + 1e-9) + 1e-12 * size**2 * n / before.h, "the variance increased", before=v0, after=v1, **about)
  ctx.event("kept_original", before.g > 0 and np.array_equal(z, y))
  ctx.event("adjusted", not np.array_equal(z, y))
  if before.g == 0:
    r2 = np.corrcoef(y, x)[0, 1] ** 2
    ctx.close(np.var(z), np.var(y) * (1 - r2), "the variance is not reduced by the squared correlation", rtol=1e-7,
              atol=1e-12 * size**2, **about)
    ctx.check(abs(np.cov(z, x)[0, 1]) <= 1e-9 * size * np.abs(x).max(), "a correlation with the covariate is left", **about)
  if kind == "collinear":
    ctx.event("collinear")
    ctx.check(np.std(z) <= 1e-9 * size, "a perfect covariate does not explain everything", sd=np.std(z), **about)
    return
  if continuous:
    want = ref.cuped(y, x, q)
    if want is not None:
      ctx.event("reference")
      ctx.close(z, want, "not the covariate adjusted metric", rtol=1e-7, atol=1e-9 * size, **about)
      # Units and offset of the covariate.
      a = gen.pick(rng, [1e-3, 1e3, -1.0, -20.0, float(rng.uniform(0.1, 9))])
      b = float(rng.normal()) * np.std(x) * abs(a) * gen.pick(rng, [0, 1, 20])
      with core.captured():
        other = statistics.apply_cuped_adjustment(y, a * x + b, q)
      ctx.close(other, z, "depends on the units of the covariate", rtol=1e-6, atol=1e-7 * size, a=a, b=b, **about)
      # Units of the metric.
      s = gen.pick(rng, [1e-3, 1e3, 7.0])
      with core.captured():
        other = statistics.apply_cuped_adjustment(s * y, x, q)
      ctx.close(np.asarray(other) / s, z, "depends on the units of the metric", rtol=1e-6, atol=1e-7 * size, s=s, **about)
      perm = rng.permutation(n)
      with core.captured():
        other = statistics.apply_cuped_adjustment(y[perm], x[perm], q)
      ctx.close(other, z[perm], "depends on the order of the items", rtol=1e-7, atol=1e-9 * size, **about)
  ctx.sample(variance_before=v0, variance_after=v1, **about)
