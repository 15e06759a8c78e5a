"""S03-S08: the statistical tests."""

import dataclasses
import math

import numpy as np
from scipy import special
from scipy import stats

from feedx import statistics

from mon import core
from mon import gen
from mon import ref

PROPS = {}
INF = float("inf")


def run(kind, x1, x2, **kwargs):
  test = statistics.yuens_t_test_paired if kind == "paired" else statistics.yuens_t_test_ind
  with core.captured():
    return dataclasses.asdict(test(x1, x2, **kwargs))


def data_noise(*samples):
  """The rounding error to allow for in averages and differences."""
  return 1e-12 * max(float(np.max(np.abs(s))) for s in samples if s is not None)


def positive_pair(rng, n1, n2, paired=False, kind=None):
  """Two positive samples with related levels."""
  kind = kind or gen.pick(rng, gen.POSITIVE_KINDS)
  pool = np.abs(gen.sample(rng, n1 + n2, kind)) + 1e-12
  x1, x2 = pool[:n1].copy(), pool[n1:].copy()
  x1 *= gen.pick(rng, [1.0, 1.0, 1.1, 0.7, 3.0])
  if paired:
    x2 = x1[:n2] * rng.lognormal(0, rng.uniform(0.05, 1), n2) if gen.chance(rng, 0.7) else x2
  return x1, x2


def pair(rng, n1, n2, paired=False):
  if gen.chance(rng, 0.6):
    return positive_pair(rng, n1, n2, paired)
  kind = gen.pick(rng, gen.KINDS)
  pool = gen.sample(rng, n1 + n2, kind)
  x1, x2 = pool[:n1].copy(), pool[n1:].copy()
  if paired and gen.chance(rng, 0.7):
    # Correlated, positively or negatively.
    rho = rng.uniform(-0.95, 0.98)
    x2 = rho * x1[:n2] + np.sqrt(1 - rho**2) * x2
  if gen.chance(rng, 0.4):
    x1 = x1 + rng.normal() * np.std(x1)
  return x1, x2


def sizes(rng, q):
  n = [int(gen.pick(rng, [6, 12, 30, 100, gen.size(rng, 6, 300, 20000)])) for _ in range(2)]
  ok = all(m - 2 * ref.n_floor(q, m) >= 4 for m in n)
  return n if ok else [40, 55]


# ------------------------------------------------------------------------ S03
S03 = PROPS["S03"] = core.Property(
    "S03",
    rule="Two samples of 6 to 300 values (unequal sizes, ties, offsets, extreme units, one constant "
    "sample, zero control mean) with every variance assumption and alternative. distinct = "
    "(sizes, quantile, variance, alternative, alpha).",
    require={"tests": 800, "scipy": 500, "unequal_sizes": 300, "trimmed": 300, "constant_sample": 20,
             "zero_control": 20, "significant": 100, "insignificant": 100})


@S03.scenario(quick=2500, thorough=40000)
def two_samples(ctx, rng):
  q = gen.quantile(rng)
  n1, n2 = sizes(rng, q)
  x1, x2 = pair(rng, n1, n2)
  special_case = gen.pick(rng, [None] * 12 + ["discrete", "discrete", "constant", "zero"])
  if special_case == "discrete":
    x1, x2 = gen.discrete_sample(rng, n1), gen.discrete_sample(rng, n2)
  elif special_case == "constant":
    level = float(gen.pick(rng, [0.0, 1.0, 5.5]))
    if gen.chance(rng, 0.5):
      x1 = np.full(n1, level)
    else:
      x2 = np.full(n2, level)
    ctx.event("constant_sample")
  elif special_case == "zero":
    x2 = np.zeros(n2)
    ctx.event("zero_control")
  equal_var = gen.chance(rng, 0.4)
  alternative = gen.pick(rng, gen.ALTERNATIVES)
  alpha = gen.alpha(rng)
  want = ref.ttest_ind(x1, x2, q, equal_var=equal_var, alternative=alternative, alpha=alpha) if (
      max(ref.Trimmed(x1, q).var()[0], ref.Trimmed(x2, q).var()[0]) > 0) else None
  kwargs = dict(trimming_quantile=q, equal_var=equal_var, alternative=alternative, alpha=alpha)
  before = x1.copy(), x2.copy()
  given = gen.form(rng, x1), gen.form(rng, x2)
  got = run("ind", *given, **kwargs)
  ctx.check(np.array_equal(before[0], given[0]) and np.array_equal(before[1], given[1]), "the samples were modified")
  if want is None:
    return
  ctx.event("tests")
  ctx.event("unequal_sizes", n1 != n2)
  ctx.event("trimmed", ref.n_floor(q, n1) > 0)
  ctx.event("significant" if want["is_significant"] else "insignificant")
  ctx.distinct(n1, n2, q, equal_var, alternative, alpha)
  noise = data_noise(x1, x2)
  ref.compare_result(ctx, got, want, f"two samples {kwargs} n={n1, n2}", noise=noise)
  if special_case is None and want["standard_error"] > 1e4 * noise:
    ctx.event("scipy")
    s = stats.ttest_ind(x1, x2, equal_var=equal_var, trim=q, alternative=alternative)
    ctx.close(got["statistic"], s.statistic, "not scipy's statistic", rtol=1e-6, atol=1e-7)
    ctx.close(got["p_value"], s.pvalue, "not scipy's p-value", rtol=1e-5, atol=1e-8)
    ctx.close(got["degrees_of_freedom"], s.df, "not scipy's degrees of freedom", rtol=1e-6)
  if gen.chance(rng, 0.2):
    defaults = run("ind", x1, x2, trimming_quantile=q)
    want = ref.ttest_ind(x1, x2, q)
    ref.compare_result(ctx, defaults, want, f"two samples with defaults n={n1, n2} q={q}", noise=noise)
  ctx.sample(n=(n1, n2), settings=kwargs, p=got["p_value"], statistic=got["statistic"])


@S03.scenario(quick=40, thorough=400)
def rejected(ctx, rng):
  x1, x2 = gen.sample(rng, 20), gen.sample(rng, 20)
  kind = gen.pick(rng, ["ind", "paired"])
  with ctx.raises(ValueError, "an unknown alternative was accepted"):
    run(kind, x1, x2, trimming_quantile=0.1, alternative=gen.pick(rng, ["two_sided", "", "both", "Greater"]))
  with ctx.raises(ValueError, "an invalid quantile was accepted"):
    run(kind, x1, x2, trimming_quantile=gen.pick(rng, [-0.01, 0.5, 0.9]))


# ------------------------------------------------------------------------ S04
S04 = PROPS["S04"] = core.Property(
    "S04",
    rule="Paired samples of 6 to 300 items with correlations from -0.95 to 0.98, offsets, extreme "
    "units, a constant sample, quantiles and alternatives. distinct = (n, quantile, alternative, "
    "alpha).",
    require={"tests": 600, "scipy": 150, "trimmed": 200, "constant_sample": 20, "rejected": 20})


@S04.scenario(quick=2000, thorough=40000)
def paired_samples(ctx, rng):
  q = gen.quantile(rng)
  n, _ = sizes(rng, q)
  x1, x2 = pair(rng, n, n, paired=True)
  if gen.chance(rng, 0.05):
    level = float(gen.pick(rng, [0.0, 1.0, 3.3]))
    if gen.chance(rng, 0.5):
      x2 = np.full(n, level)
    else:
      x1 = np.full(n, level)
    ctx.event("constant_sample")
  elif q == 0 and gen.chance(rng, 0.3):
    x1, x2 = gen.discrete_sample(rng, n), gen.discrete_sample(rng, n)
  if np.std(x1 - x2) == 0 or ref.tied_at_cut(x1 - x2, q):
    return
  alternative = gen.pick(rng, gen.ALTERNATIVES)
  alpha = gen.alpha(rng)
  kwargs = dict(trimming_quantile=q, alternative=alternative, alpha=alpha)
  before = x1.copy(), x2.copy()
  given = gen.form(rng, x1), gen.form(rng, x2)
  got = run("paired", *given, **kwargs)
  ctx.check(np.array_equal(before[0], given[0]) and np.array_equal(before[1], given[1]), "the samples were modified")
  want = ref.ttest_paired(x1, x2, q, alternative=alternative, alpha=alpha)
  ctx.event("tests")
  ctx.event("trimmed", ref.n_floor(q, n) > 0)
  ctx.distinct(n, q, alternative, alpha)
  noise = data_noise(x1, x2)
  # The interval is computed from the variances of both samples.
  spread = max(np.var(x1), np.var(x2)) / max(np.var(x1 - x2), 1e-300)
  ref.compare_result(ctx, got, want, f"paired {kwargs} n={n}", noise=noise * (1 + spread), rtol=1e-7 + 1e-13 * spread)
  if q == 0 and want["standard_error"] > 1e4 * noise:
    ctx.event("scipy")
    s = stats.ttest_rel(x1, x2, alternative=alternative)
    ctx.close(got["statistic"], s.statistic, "not scipy's statistic", rtol=1e-6, atol=1e-7)
    ctx.close(got["p_value"], s.pvalue, "not scipy's p-value", rtol=1e-5, atol=1e-8)
  # The one-sample trimmed test on the differences.
  d = ref.Trimmed(x1 - x2, q)
  se = math.sqrt(d.var(1)[0] / d.h)
  ctx.close(got["statistic"], d.mean[0] / se, "not the one-sample test on the differences", rtol=1e-6, atol=noise / se)
  ctx.close(got["absolute_difference"], d.mean[0], "not the trimmed mean of the differences", rtol=1e-9, atol=noise)
  ctx.sample(n=n, settings=kwargs, p=got["p_value"], statistic=got["statistic"])


@S04.scenario(quick=40, thorough=400)
def lengths(ctx, rng):
  n = int(rng.integers(6, 60))
  other = n + int(gen.pick(rng, [-1, 1, 5]))
  ctx.event("rejected")
  with ctx.raises(ValueError, "samples of different lengths were accepted"):
    run("paired", gen.sample(rng, n), gen.sample(rng, other), trimming_quantile=gen.quantile(rng, 5))


# ------------------------------------------------------------------------ S05
S05 = PROPS["S05"] = core.Property(
    "S05",
    rule="Pairs of related tests (two-sample, paired, ratio): other alphas and alternatives, swapped, "
    "shifted, rescaled and reordered samples. distinct = (kind, sizes, quantile, alpha).",
    require={"significant": 200, "insignificant": 200, "swapped": 400, "shifted": 300, "scaled": 400,
             "reordered": 400, "ratio": 100, "at_the_edge": 200})


@S05.scenario(quick=1500, thorough=30000)
def consistency(ctx, rng):
  kind = gen.pick(rng, ["ind", "ind", "paired"])
  ratio = gen.chance(rng, 0.25)
  q = gen.quantile(rng)
  n1, n2 = sizes(rng, q)
  if kind == "paired":
    n2 = n1
  x1, x2 = pair(rng, n1, n2, kind == "paired") if not ratio else positive_pair(rng, n1, n2, kind == "paired")
  d = {}
  if ratio:
    d = dict(denom_values1=x1 * rng.lognormal(0, 0.5, n1) + x1.mean(),
             denom_values2=x2 * rng.lognormal(0, 0.5, n2) + x2.mean())
    ctx.event("ratio")
  if kind == "paired" and ref.tied_at_cut(x1 - x2, q):
    return
  alpha = gen.alpha(rng)
  options = dict(trimming_quantile=q, **d)
  if kind == "ind":
    options["equal_var"] = gen.chance(rng, 0.3)
  ctx.distinct(kind, ratio, n1, n2, q, alpha)
  noise = data_noise(x1, x2) if not ratio else 1e-12
  results = {a: run(kind, x1, x2, alternative=a, alpha=alpha, **options) for a in gen.ALTERNATIVES}
  two, up, down = (results[a] for a in gen.ALTERNATIVES)
  se = two["standard_error"]
  if not se > 1e3 * noise:
    return
  rtol = 1e-6
  if kind == "paired":
    rtol *= 1 + 1e-7 * max(np.var(x1), np.var(x2)) / np.var(x1 - x2)
  about = dict(kind=kind, ratio=ratio, n=(n1, n2), q=q, alpha=alpha)
  for a, r in results.items():
    lo, hi, est, p = (r["absolute_difference_lower_bound"], r["absolute_difference_upper_bound"],
                      r["absolute_difference"], r["p_value"])
    ctx.event("significant" if r["is_significant"] else "insignificant")
    ctx.check(0 <= p <= 1 + 1e-12, "the p-value is not a probability", p=p, **about)
    if abs(p - alpha) > 1e-6 * alpha:
      ctx.equal(bool(r["is_significant"]), bool(p < alpha), "significance is not p < alpha", p=p, **about)
      ctx.equal(bool(r["is_significant"]), bool(lo > 0 or hi < 0), "significance contradicts the interval",
                p=p, interval=(lo, hi), alternative=a, **about)
    ctx.check(lo <= est <= hi or (alpha >= 0.49 and a != "two-sided"), "the interval does not contain the estimate", interval=(lo, hi), est=est, **about)
    ctx.equal(lo == -INF, a == "less", "wrongly (un)bounded below", alternative=a, interval=(lo, hi), **about)
    ctx.equal(hi == INF, a == "greater", "wrongly (un)bounded above", alternative=a, interval=(lo, hi), **about)
    ctx.close(r["alpha"], alpha, "wrong alpha")
    for field in ("statistic", "absolute_difference", "standard_error", "degrees_of_freedom", "sample_size",
                  "control_average"):
      ctx.close(r[field], two[field], f"{field} depends on the alternative", rtol=1e-12)
  ctx.close(up["p_value"] + down["p_value"], 1.0, "one-sided p-values do not sum to one", rtol=1e-9, **about)
  ctx.close(two["p_value"], 2 * min(up["p_value"], down["p_value"]), "two-sided is not twice one-sided", rtol=1e-9, atol=1e-300, **about)
  ctx.equal(bool(two["absolute_difference"] > 0), bool(up["p_value"] < 0.5), "the wrong side", **about)
  ctx.close(two["statistic"], two["absolute_difference"] / se, "statistic is not difference / standard error", rtol=1e-9)
  smaller = alpha * float(rng.uniform(0.05, 0.9))
  wide = run(kind, x1, x2, alternative="two-sided", alpha=smaller, **options)
  ctx.check(wide["absolute_difference_lower_bound"] < two["absolute_difference_lower_bound"]
            and wide["absolute_difference_upper_bound"] > two["absolute_difference_upper_bound"],
            "a smaller alpha does not widen the interval", smaller=smaller, **about)
  lo_w, lo_t = wide["relative_difference_lower_bound"], two["relative_difference_lower_bound"]
  hi_w, hi_t = wide["relative_difference_upper_bound"], two["relative_difference_upper_bound"]
  if lo_t is not None:
    ctx.check(lo_w <= lo_t and hi_w >= hi_t, "a smaller alpha does not widen the relative interval", smaller=smaller, **about)

  # At a significance level just above and just below the p-value.
  a = gen.pick(rng, gen.ALTERNATIVES)
  p = results[a]["p_value"]
  step = max(1e-4, 100 * (rtol + noise / se))
  if 1e-10 < p < 0.45 and step < 0.01:
    for edge in (p * (1 - step), p * (1 + step)):
      r = run(kind, x1, x2, alternative=a, alpha=edge, **options)
      excluded = r["absolute_difference_lower_bound"] > 0 or r["absolute_difference_upper_bound"] < 0
      ctx.event("at_the_edge")
      ctx.equal(bool(r["is_significant"]), bool(edge > p), "wrong at a level next to the p-value", p=p, level=edge, **about)
      ctx.equal(bool(excluded), bool(edge > p), "the interval is wrong at a level next to the p-value", p=p, level=edge,
                interval=(r["absolute_difference_lower_bound"], r["absolute_difference_upper_bound"]), **about)

  def expect(r, label, scale=1.0, level=0.0, mirror=False, relative=True, slack=0.0):
    noise_ = noise * 10 + slack
    sign = -1 if mirror else 1
    base = two
    b = dict(statistic=sign * base["statistic"], p_value=base["p_value"],
             absolute_difference=sign * scale * base["absolute_difference"],
             standard_error=scale * base["standard_error"], degrees_of_freedom=base["degrees_of_freedom"],
             sample_size=base["sample_size"])
    lo_, hi_ = base["absolute_difference_lower_bound"], base["absolute_difference_upper_bound"]
    b["absolute_difference_lower_bound"], b["absolute_difference_upper_bound"] = (
        (-hi_, -lo_) if mirror else (scale * lo_, scale * hi_))
    if not mirror:
      b["control_average"] = scale * base["control_average"] + level
    for field, value in b.items():
      atol = noise_ * scale
      if field == "statistic":
        atol = 20 * noise_ / se
      if field == "p_value":
        atol = 1e-9 + 20 * noise_ / se
      if field in ("degrees_of_freedom", "sample_size"):
        atol = 1e-6
      ctx.close(r[field], value, f"{label}: {field}", rtol=rtol, atol=atol, **about)
    if relative and base["relative_difference"] is not None and base["control_average"] > 1e3 * noise_:
      for field in ("relative_difference", "relative_difference_lower_bound", "relative_difference_upper_bound"):
        big = base[field] is not None and np.isfinite(base[field]) and abs(base[field]) > 1e3
        if not big:  # Next to an unbounded interval the bound is ill-conditioned.
          ctx.close(r[field], base[field], f"{label}: {field}", rtol=1e-4, atol=1e-5, **about)

  swap = dict(options)
  if ratio:
    swap.update(denom_values1=d["denom_values2"], denom_values2=d["denom_values1"])
  swapped = run(kind, x2, x1, alternative="two-sided", alpha=alpha, **swap)
  if kind == "ind" or ref.n_floor(q, n1) == 0 or not ratio:
    ctx.event("swapped")
    expect(swapped, "swapped", mirror=True, relative=False)
    one_sided = run(kind, x2, x1, alternative="less", alpha=alpha, **swap)
    ctx.close(one_sided["p_value"], up["p_value"], "swapping does not exchange the alternatives", rtol=1e-6, atol=1e-9 + 10 * noise / se)
    ctx.close(one_sided["absolute_difference_upper_bound"], -up["absolute_difference_lower_bound"],
              "swapping does not mirror the one-sided interval", rtol=rtol, atol=10 * noise)
  if not ratio:
    ctx.event("shifted")
    c = float(rng.normal()) * (np.std(x1) + np.std(x2)) * 3
    shifted = run(kind, x1 + c, x2 + c, alternative="two-sided", alpha=alpha, **options)
    expect(shifted, "shifted", level=c, relative=False, slack=1e-12 * abs(c))
  s = gen.pick(rng, [1e-6, 1e-3, 0.5, 3.7, 1e3, 1e6])
  scaled_denominators = dict(options)
  if ratio and gen.chance(rng, 0.5):
    # Only the numerator is rescaled, or numerator and denominator together.
    scaled_denominators.update({k: v * s for k, v in d.items()})
    scaled = run(kind, x1 * s, x2 * s, alternative="two-sided", alpha=alpha, **scaled_denominators)
    expect(scaled, "numerator and denominator scaled")
  else:
    scaled = run(kind, x1 * s, x2 * s, alternative="two-sided", alpha=alpha, **options)
    expect(scaled, "scaled", scale=s)
  ctx.event("scaled")
  p1 = rng.permutation(n1)
  p2 = p1 if kind == "paired" else rng.permutation(n2)
  reordered = dict(options)
  if ratio:
    reordered.update(denom_values1=d["denom_values1"][p1], denom_values2=d["denom_values2"][p2])
  ctx.event("reordered")
  expect(run(kind, x1[p1], x2[p2], alternative="two-sided", alpha=alpha, **reordered), "reordered")
  ctx.sample(p=two["p_value"], interval=(two["absolute_difference_lower_bound"], two["absolute_difference_upper_bound"]), **about)


# ------------------------------------------------------------------------ S06
S06 = PROPS["S06"] = core.Property(
    "S06",
    rule="Means from 1e-9 to 1e9, standard errors from 0.1% to 300% of the means, correlations from "
    "-0.99 to 0.999, degrees of freedom from 1.5 to 1e6, alternatives and alphas; the same through "
    "the tests. distinct = (alternative, bounded or not, sides of zero, order of magnitude).",
    require={"intervals": 1500, "unbounded": 100, "clipped_at_minus_one": 50, "excludes_zero": 200,
             "rescaled": 1000, "negative_mean": 50, "from_tests": 200, "no_treatment": 30, "some_negative": 20})


def _inputs(rng):
  scale = 10.0 ** rng.uniform(-9, 9)
  m2 = scale * rng.lognormal(0, 1)
  m1 = m2 * gen.pick(rng, [1.0, 0.0, float(rng.lognormal(0, 0.1)), float(rng.lognormal(0, 1)), 0.01, 100.0])
  if gen.chance(rng, 0.04):
    m2 = 0.0
  base = max(m1, m2)
  se1, se2 = (base * 10.0 ** rng.uniform(-3, 0.5) for _ in range(2))
  if gen.chance(rng, 0.3):
    se1 = se2
  if gen.chance(rng, 0.05):
    se1 = 0.0
  corr = gen.pick(rng, [0.0, 0.0, 0.5, float(rng.uniform(-0.99, 0.999))])
  df = gen.pick(rng, [1.5, 5, 30, 200, 10**6, float(rng.uniform(2, 500))])
  return dict(mean_1=m1, mean_2=m2, standard_error_1=se1, standard_error_2=se2, corr=corr, degrees_of_freedom=df)


@S06.scenario(quick=4000, thorough=80000)
def fieller(ctx, rng):
  k = _inputs(rng)
  alternative, alpha = gen.pick(rng, gen.ALTERNATIVES), gen.pick(rng, [0.05, 0.01, 0.1, 0.2, float(rng.uniform(0.001, 0.45))])
  f = statistics.relative_difference_confidence_interval
  lower, upper = f(alternative=alternative, alpha=alpha, **k)
  ctx.event("intervals")
  ctx.event("unbounded", math.isinf(upper) and alternative != "greater")
  ctx.event("clipped_at_minus_one", lower == -1 and alternative != "less")
  crit = ref.critical(k["degrees_of_freedom"], alternative, alpha)
  v1, v2 = k["standard_error_1"] ** 2, k["standard_error_2"] ** 2
  c12 = k["corr"] * k["standard_error_1"] * k["standard_error_2"]
  about = dict(alternative=alternative, alpha=alpha, interval=(lower, upper), inputs=k)
  if k["mean_2"] > 0 or k["mean_1"] > 0:
    problem = ref.relative_interval_problem(k["mean_1"], k["mean_2"], v1, v2, c12, crit, alternative, lower, upper)
    ctx.check(problem is None, f"{problem}", **about)
  # Agreement with the test of the absolute difference.
  alo, ahi = statistics.absolute_difference_confidence_interval(alternative=alternative, alpha=alpha, **k)
  significant = alo > 0 or ahi < 0
  ctx.event("excludes_zero", lower > 0 or upper < 0)
  if lower > 1e-9 or upper < -1e-9:
    ctx.check(significant, "excludes no effect although the test is not significant", absolute=(alo, ahi), **about)
  # Units.
  s = 10.0 ** rng.uniform(-12, 12)
  scaled = {**k, **{n: v * s for n, v in k.items() if n.startswith(("mean", "standard"))}}
  lo2, hi2 = f(alternative=alternative, alpha=alpha, **scaled)
  # Close to the change from bounded to unbounded the bounds are ill-conditioned.
  margin = abs(k["mean_2"] ** 2 - crit**2 * v2) / max(k["mean_2"] ** 2, 1e-300)
  margin1 = abs(k["mean_1"] ** 2 - crit**2 * v1) / max(k["mean_1"] ** 2, 1e-300)
  if margin > 1e-6 and margin1 > 1e-6:
    ctx.event("rescaled")
    ctx.close([lo2, hi2], [lower, upper], "depends on the metric's units", rtol=1e-5, atol=1e-7, scale=s, **about)
  ctx.distinct(alternative, math.isinf(upper), lower == -1, lower > 0, upper < 0, int(math.log10(max(k["mean_2"], 1e-12))))
  wide_lo, wide_hi = f(alternative=alternative, alpha=alpha * 0.5, **k)
  tolerance = 1e-9 * (1 + abs(lower))
  ctx.check(wide_lo <= lower + tolerance and (wide_hi >= upper * (1 - 1e-9) - 1e-9 or wide_hi == INF),
            "a smaller alpha does not widen the interval", wide=(wide_lo, wide_hi), **about)
  ctx.sample(**about)


@S06.scenario(quick=500, thorough=8000)
def through_the_tests(ctx, rng):
  """The same guarantees on the results of tests of actual samples."""
  kind = gen.pick(rng, ["ind", "paired"])
  q = gen.quantile(rng)
  n1, n2 = sizes(rng, q)
  if kind == "paired":
    n2 = n1
  x1, x2 = positive_pair(rng, n1, n2, kind == "paired")
  if gen.chance(rng, 0.4):  # Sparse samples, whose mean is hardly different from zero.
    x1 = x1 * (rng.random(n1) < 0.2)
    x2 = x2 * (rng.random(n2) < 0.2)
    q = 0.0
  special = gen.pick(rng, ["", "", "", "", "no_treatment", "some_negative"])
  if special == "no_treatment":  # Nothing at all happened in treatment.
    x1, q = np.zeros(n1), 0.0
  elif special == "some_negative":  # Means are positive although not all values are.
    x1 = x1 + rng.normal(0, x1.mean(), n1) * rng.uniform(0.3, 1)
    x2 = x2 + rng.normal(0, x2.mean(), n2) * rng.uniform(0.3, 1)
    if ref.Trimmed(x1, q).mean[0] <= 0 or ref.Trimmed(x2, q).mean[0] <= 0 or kind == "paired" and (
        ref.ttest_paired(x1, x2, q)["_m1"] <= 0 or ref.ttest_paired(x1, x2, q)["_m2"] <= 0):
      return
  if special:
    ctx.event(special)
  if not ((np.var(x1) > 0 or special == "no_treatment") and np.var(x2) > 0 and np.var(x1 - x2 if kind == "paired" else x1) > 0):
    return
  alternative, alpha = gen.pick(rng, gen.ALTERNATIVES), gen.alpha(rng)
  alpha = min(alpha, 0.45)
  got = run(kind, x1, x2, trimming_quantile=q, alternative=alternative, alpha=alpha)
  test = ref.ttest_paired if kind == "paired" else ref.ttest_ind
  want = test(x1, x2, q, alternative=alternative, alpha=alpha)
  if want["_m2"] <= 0:
    return
  ctx.event("from_tests")
  ctx.close(got["relative_difference"], want["_m1"] / want["_m2"] - 1, "not treatment over control minus one",
            rtol=1e-7, atol=1e-9)
  problem = ref.relative_interval_problem(
      want["_m1"], want["_m2"], want["_v1"], want["_v2"], want["_c12"], want["_crit"], alternative,
      got["relative_difference_lower_bound"], got["relative_difference_upper_bound"])
  ctx.check(problem is None, f"{kind}: {problem}", got=got, n=(n1, n2), q=q)
  lower, upper = got["relative_difference_lower_bound"], got["relative_difference_upper_bound"]
  if lower > 1e-9 or upper < -1e-9:
    ctx.check(got["is_significant"], "excludes no effect but is not significant", got=got)


@S06.scenario(quick=120, thorough=1500)
def negative_means(ctx, rng):
  ctx.event("negative_mean")
  k = _inputs(rng)
  which = gen.pick(rng, ["mean_1", "mean_2"])
  bad = dict(k, **{which: -abs(k[which]) - gen.pick(rng, [1e-12, 1.0])})
  with ctx.raises(ValueError, "a negative mean was accepted", inputs=bad):
    statistics.relative_difference_confidence_interval(alternative="two-sided", **bad)
  for f in (statistics.relative_difference_confidence_interval, statistics.absolute_difference_confidence_interval):
    with ctx.raises(ValueError, "an unknown alternative was accepted"):
      f(alternative="both", **k)
  n = 30
  x1, x2 = np.abs(gen.sample(rng, n, "normal")) + 0.1, np.abs(gen.sample(rng, n, "normal")) + 0.1
  if gen.chance(rng, 0.5):
    x1 = -x1
  else:
    x2 = -x2
  r = run(gen.pick(rng, ["ind", "paired"]), x1, x2, trimming_quantile=0.0)
  for field in ("relative_difference", "relative_difference_lower_bound", "relative_difference_upper_bound"):
    ctx.check(r[field] is None or r[field] != r[field], f"{field} of a negative mean", got=r[field])


# ------------------------------------------------------------------------ S07
S07 = PROPS["S07"] = core.Property(
    "S07",
    rule="Numerators and denominators with correlations of either sign, constant denominators, zero "
    "numerators, two-sample and paired, with trimming. distinct = (kind, sizes, quantile, "
    "alternative, structure).",
    require={"tests": 500, "constant_denominator": 60, "rescaled": 300, "paired": 150, "ind": 150,
             "zero_numerator": 10, "rejected": 30, "one_ratio_constant": 10, "sparse": 100})


def _ratio_sample(rng, n, structure, level):
  d = rng.lognormal(0, rng.uniform(0.1, 0.8), n) * 10.0 ** rng.uniform(-2, 3)
  if structure == "constant":
    d = np.full(n, float(rng.uniform(0.5, 50)))
  if structure == "negative":
    x = level * d.mean() * np.exp(-0.4 * (d / d.mean())) * rng.lognormal(0, 0.2, n)
  elif structure == "independent":
    x = level * d.mean() * rng.lognormal(0, 0.5, n)
  else:
    x = level * d * rng.lognormal(0, rng.uniform(0.05, 0.6), n)
  if structure == "sparse":
    # Items without any clicks, some of which have conversions from earlier clicks.
    none = rng.random(n) < rng.uniform(0.05, 0.6)
    none[:2] = False
    d[none] = 0.0
    x[none & (rng.random(n) < gen.pick(rng, [0.5, 1.0]))] = 0.0
  return x, d


@S07.scenario(quick=1500, thorough=30000)
def delta_method(ctx, rng):
  kind = gen.pick(rng, ["ind", "paired"])
  structure = gen.pick(rng, ["proportional", "proportional", "independent", "negative", "constant", "sparse"])
  q = gen.quantile(rng) if structure != "sparse" else 0.0
  n1, n2 = sizes(rng, q)
  if kind == "paired":
    n2 = n1
  ctx.event("sparse", structure == "sparse")
  level = 10.0 ** rng.uniform(-3, 2)
  x1, d1 = _ratio_sample(rng, n1, structure, level * gen.pick(rng, [1, 1, 1.3]))
  x2, d2 = _ratio_sample(rng, n2, structure, level)
  if kind == "paired" and structure != "constant" and gen.chance(rng, 0.6):
    d2 = d1 * rng.lognormal(0, 0.1, n1)
    x2 = x1 * rng.lognormal(0, 0.1, n1)
  if structure == "constant":
    d2 = np.full(n2, d1[0])
  if gen.chance(rng, 0.04) and kind == "ind":
    x1 = np.zeros(n1)
    ctx.event("zero_numerator")
  elif gen.chance(rng, 0.1):
    x1, x2 = x1 - 2 * x1.mean(), x2 - 2 * x2.mean()
  elif gen.chance(rng, 0.08) and structure != "constant":
    # One of the ratios is the same for every item (no variance at all).
    ctx.event("one_ratio_constant")
    zero = gen.chance(rng, 0.4)
    numerator = np.zeros(n1) if zero else np.full(n1, 2.0 ** int(rng.integers(-4, 4)))
    denominator = d1 if zero else np.full(n1, 4.0)
    if kind == "paired" and gen.chance(rng, 0.5):
      x2, d2 = numerator, denominator
    else:
      x1, d1 = numerator, denominator
  alternative, alpha = gen.pick(rng, gen.ALTERNATIVES), gen.alpha(rng)
  options = dict(trimming_quantile=q, alternative=alternative, alpha=alpha)
  extra = {}
  if kind == "ind":
    extra["equal_var"] = gen.chance(rng, 0.3)
  tied = ref.tied_at_cut(x1 - x2, q) if kind == "paired" else (ref.tied_at_cut(x1, q) or ref.tied_at_cut(x2, q))
  if tied and structure != "constant" and not np.ptp(x1) == 0:
    return
  if kind == "ind" and np.all(x1 == 0) and q > 0:
    options["trimming_quantile"] = q = 0.0
  given = [gen.form(rng, a) for a in (x1, x2, d1, d2)]
  copies = [a.copy() for a in given]
  got = run(kind, given[0], given[1], denom_values1=given[2], denom_values2=given[3], **options, **extra)
  ctx.check(all(np.array_equal(a, b) for a, b in zip(copies, given)), "the samples were modified")
  test = ref.ttest_paired if kind == "paired" else ref.ttest_ind
  want = test(x1, x2, q, d1, d2, alternative=alternative, alpha=alpha, **extra)
  ctx.event("tests")
  ctx.event(kind)
  ctx.distinct(kind, n1, n2, q, alternative, structure)
  ratio_size = max(np.abs(x1).max() / d1.mean(), np.abs(x2).max() / d2.mean())
  spread = max(want["_v1"], want["_v2"]) / max(want["standard_error"] ** 2, 1e-300)
  ref.compare_result(ctx, got, want, f"{kind} ratio {structure} {options} n={n1, n2}", rtol=1e-6 + 1e-13 * spread,
                     noise=1e-11 * ratio_size * (1 + spread))
  if structure == "constant" and kind == "ind" or structure == "constant" and q == 0:
    ctx.event("constant_denominator")
    plain = run(kind, x1 / d1[0], x2 / d1[0], **options, **extra)
    for field in ("statistic", "p_value", "absolute_difference", "absolute_difference_lower_bound",
                  "absolute_difference_upper_bound", "standard_error", "degrees_of_freedom", "sample_size",
                  "control_average"):
      ctx.close(got[field], plain[field], f"constant denominator: {field}", rtol=1e-6, atol=1e-9 * max(1.0, ratio_size), kind=kind, q=q)
  s = gen.pick(rng, [1e-6, 1e-2, 3.0, 1e5])
  t = run(kind, x1 * s, x2 * s, denom_values1=d1 * s, denom_values2=d2 * s, **options, **extra)
  ctx.event("rescaled")
  for field in ("statistic", "p_value", "absolute_difference", "standard_error", "degrees_of_freedom", "sample_size",
                "control_average"):
    ctx.close(t[field], got[field], f"numerator and denominator rescaled: {field}", rtol=1e-5, atol=1e-8 * max(1.0, ratio_size), s=s, kind=kind, q=q)
  ctx.sample(kind=kind, structure=structure, n=(n1, n2), settings=options, ratio=(want["_m1"], want["_m2"]), p=got["p_value"])


@S07.scenario(quick=60, thorough=600)
def one_denominator(ctx, rng):
  ctx.event("rejected")
  x = gen.sample(rng, 30)
  kind = gen.pick(rng, ["ind", "paired"])
  which = gen.pick(rng, ["denom_values1", "denom_values2"])
  with ctx.raises(ValueError, "a single denominator was accepted", kind=kind, which=which):
    run(kind, x, x[::-1].copy(), trimming_quantile=gen.pick(rng, [0.0, 0.1]), **{which: np.abs(x) + 1})


# ------------------------------------------------------------------------ S08
S08 = PROPS["S08"] = core.Property(
    "S08",
    rule="Standard deviations from 1e-6 to 1e6, 4 to 1e6 items, alphas and powers over their range, "
    "all alternatives, scalars and arrays. distinct = (kind, alternative, n, alpha, power).",
    require={"effects": 1500, "arrays": 100, "monotone": 1000, "rejected": 20})


def t_cdf(t, df):
  """From the incomplete beta function."""
  if t * t < df:
    # Close to the centre, where the tail formula loses digits.
    return 0.5 + math.copysign(0.5, t) * special.betainc(0.5, df / 2, t * t / (df + t * t))
  tail = 0.5 * special.betainc(df / 2, 0.5, df / (df + t * t))
  return 1 - tail if t > 0 else tail


def t_quantile(p, df):
  low, high = -1e3, 1e3
  while t_cdf(low, df) > p:
    low *= 10
  while t_cdf(high, df) < p:
    high *= 10
  for _ in range(200):
    mid = (low + high) / 2
    if t_cdf(mid, df) < p:
      low = mid
    else:
      high = mid
  return (low + high) / 2


def _mde(kind, sd, n, **kwargs):
  if kind == "ind":
    return statistics.yuens_t_test_ind_minimum_detectable_effect(standard_deviation=sd, sample_size=n, **kwargs)
  return statistics.yuens_t_test_paired_minimum_detectable_effect(difference_standard_deviation=sd, sample_size=n, **kwargs)


@S08.scenario(quick=2000, thorough=40000)
def definition(ctx, rng):
  kind = gen.pick(rng, ["ind", "paired"])
  sd = float(10.0 ** rng.uniform(-6, 6))
  n = int(gen.pick(rng, [4, 5, 51, 1000, 10**6, int(rng.integers(4, 3000))]))
  alternative = gen.pick(rng, gen.ALTERNATIVES)
  alpha = float(gen.pick(rng, [0.05, 0.01, 0.1, 0.2, rng.uniform(0.001, 0.4)]))
  power = float(gen.pick(rng, [0.8, 0.9, 0.5, 0.95, rng.uniform(alpha, 0.995)]))
  kwargs = dict(alternative=alternative, alpha=alpha, power=power)
  got = _mde(kind, sd, n, **kwargs)
  df = n - 2 if kind == "ind" else n - 1
  se = sd * math.sqrt(4 / n) if kind == "ind" else sd / math.sqrt(n)
  crit = t_quantile(1 - (alpha / 2 if alternative == "two-sided" else alpha), df)
  about = dict(kind=kind, sd=sd, n=n, **kwargs)
  ctx.event("effects")
  ctx.distinct(kind, alternative, n, alpha, power)
  ctx.close(got, se * (crit + t_quantile(power, df)), "not the effect that reaches the power", rtol=1e-6, **about)
  if power > alpha + 0.001:
    ctx.check(got > 0, "not positive", got=got, **about)
  # The effect exceeds the critical value with the target probability.
  ctx.close(t_cdf(got / se - crit, df), power, "not significant with the target probability", rtol=1e-6, atol=1e-7, **about)
  ctx.close(statistics.calculate_minimum_detectable_effect_from_stats(se, df, **kwargs), got, "the two functions disagree", rtol=1e-9)
  # Scaling and monotonicity.
  s = float(10.0 ** rng.uniform(-3, 3))
  ctx.close(_mde(kind, sd * s, n, **kwargs), got * s, "does not scale with the standard deviation", rtol=1e-9, **about)
  if power > 0.5:
    ctx.event("monotone")
    more = n + int(rng.integers(1, n + 2))
    ctx.check(_mde(kind, sd, more, **kwargs) < got, "does not shrink with the number of items", more=more, **about)
  ctx.check(_mde(kind, sd, n, **dict(kwargs, alpha=alpha * 1.2)) < got, "does not shrink with alpha", **about)
  ctx.check(_mde(kind, sd, n, **dict(kwargs, power=power + (1 - power) / 3)) > got, "does not grow with power", **about)
  ctx.close(_mde(kind, sd, n, alpha=alpha, power=power), _mde(kind, sd, n, alternative="two-sided", alpha=alpha, power=power),
            "the default alternative is not two-sided", rtol=1e-12)
  ctx.close(_mde(kind, sd, n, **dict(kwargs, alternative="less")), _mde(kind, sd, n, **dict(kwargs, alternative="greater")),
            "less and greater disagree", rtol=1e-12)
  ctx.close(_mde(kind, sd, n), _mde(kind, sd, n, alternative="two-sided", alpha=0.05, power=0.8), "wrong defaults", rtol=1e-12)
  ctx.sample(got=got, **about)


@S08.scenario(quick=200, thorough=4000)
def arrays(ctx, rng):
  kind = gen.pick(rng, ["ind", "paired"])
  m = int(rng.integers(1, 12))
  sds = 10.0 ** rng.uniform(-6, 6, m)
  n = rng.integers(4, 3000, m) if gen.chance(rng, 0.5) else int(rng.integers(4, 3000))
  kwargs = dict(alternative=gen.pick(rng, gen.ALTERNATIVES), alpha=float(rng.uniform(0.001, 0.4)), power=float(rng.uniform(0.5, 0.99)))
  got = _mde(kind, sds, n, **kwargs)
  ctx.event("arrays")
  one_by_one = [_mde(kind, float(sd), int(k), **kwargs) for sd, k in zip(sds, np.broadcast_to(n, m))]
  ctx.close(got, one_by_one, "arrays and scalars disagree", rtol=1e-12, kind=kind, **kwargs)


@S08.scenario(quick=40, thorough=200)
def rejected(ctx, rng):
  ctx.event("rejected")
  with ctx.raises(ValueError, "an unknown alternative was accepted"):
    _mde(gen.pick(rng, ["ind", "paired"]), 1.0, 100, alternative=gen.pick(rng, ["", "both", "two_sided"]))
