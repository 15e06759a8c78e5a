"""S09: error rates, coverage and power over many repeated experiments."""

import math

import numpy as np
import pandas as pd

from feedx import experiment_analysis as ea
from feedx import statistics as fs

from mon import core
from mon import gen

PROPS = {}
S09 = PROPS["S09"] = core.Property(
    "S09",
    rule="Each case repeats one experiment (400 to 1500 times, ten times that in the thorough tier) with new data "
    "from one process and counts. Normal, gamma and lognormal data, 60 to 300 items, balanced and unbalanced, with "
    "and without trimming, CUPED, alignment and ratios, one- and two-sided. A rate is allowed to differ by a twelfth "
    "of its distance to 0 or 1 (the tests are asymptotic) plus 5.5 standard errors. distinct = processes.",
    require={"experiments": 20000, "two_sample": 10, "paired": 10, "cuped": 6, "crossover": 6, "ratio": 6, "power": 10,
             "trimmed": 20, "one_sided": 8, "rates": 150})

# Rounded up from what a long run shows for exact t-tests of skewed samples of this size.
BIAS = 1 / 12


def band(p, n):
  return BIAS * min(p, 1 - p) + 0.002 + 5.5 * math.sqrt(p * (1 - p) / n)


def judge_rate(ctx, hits, n, p, what, **about):
  ctx.event("rates")
  rate = hits / n
  ctx.check(abs(rate - p) <= band(p, n), f"{what}: a wrong rate", rate=rate, promised=p, experiments=n, band=band(p, n), **about)


def judge_uniform(ctx, p_values, what, **about):
  x = np.sort(p_values)
  n = len(x)
  d = max(np.max(np.arange(1, n + 1) / n - x), np.max(x - np.arange(n) / n))
  ctx.check(d <= 0.02 + 3.1 / math.sqrt(n), f"{what}: the p-values are not uniform", distance=d, experiments=n, **about)


def covers(low, high, truth, noise=0.0):
  return low - noise <= truth <= high + noise


def repeats(ctx, quick):
  return quick * (10 if ctx.tier == "thorough" else 1)


def process(rng, kind=None):
  """Draws (n, weeks) samples of a positive metric, mildly skewed at most."""
  kind = kind or gen.pick(rng, ["normal", "gamma", "lognormal"])
  scale = 10.0 ** rng.uniform(-3, 4)
  if kind == "normal":
    cv = rng.uniform(0.1, 0.3)
    draw = lambda n: scale * (1 + cv * rng.normal(size=n))
  elif kind == "gamma":
    shape = rng.uniform(4, 12)
    draw = lambda n: scale * rng.gamma(shape, 1 / shape, n)
  else:
    sigma = rng.uniform(0.15, 0.4)
    draw = lambda n: scale * rng.lognormal(-sigma**2 / 2, sigma, n)
  return kind, scale, draw


def population(values, q):
  """Trimmed mean of a large sample."""
  values = np.sort(values)
  k = int(q * len(values))
  return float(values[k: len(values) - k].mean())


def judge_runs(ctx, runs, alpha, delta, relative, what, **about):
  """Rates over the repeated experiments with the true effect `delta`."""
  n = len(runs)
  ctx.event("experiments", n)
  about = dict(about, alpha=alpha, delta=delta)
  noise = 1e-12 * abs(delta)
  judge_rate(ctx, sum(covers(r.absolute_difference_lower_bound, r.absolute_difference_upper_bound, delta, noise) for r in runs),
             n, 1 - alpha, f"{what}: coverage of the absolute effect", **about)
  if relative is not None:
    judge_rate(ctx, sum(covers(r.relative_difference_lower_bound, r.relative_difference_upper_bound, relative) for r in runs),
               n, 1 - alpha, f"{what}: coverage of the relative effect", relative=relative, **about)
  if delta == 0:
    judge_rate(ctx, sum(r.is_significant for r in runs), n, alpha, f"{what}: false positives", **about)
    judge_uniform(ctx, [r.p_value for r in runs], what, **about)
  errors = np.array([r.absolute_difference for r in runs]) - delta
  spread = errors.std(ddof=1)
  ctx.check(abs(errors.mean()) <= 5.5 * spread / math.sqrt(n) + 0.04 * spread, f"{what}: the estimates are biased",
            bias=errors.mean(), spread=spread, **about)
  claimed = math.sqrt(np.mean([r.standard_error ** 2 for r in runs]))
  ctx.check(abs(math.log(spread / claimed)) <= 0.04 + 5.5 / math.sqrt(n), f"{what}: the standard error is not the spread",
            spread=spread, claimed=claimed, **about)


def pick_alpha(rng):
  return gen.pick(rng, [0.05, 0.05, 0.1, 0.2])


@S09.scenario(quick=24, thorough=240)
def two_sample(ctx, rng):
  kind, _, draw = process(rng)
  n1, n2 = int(rng.integers(50, 160)), int(rng.integers(50, 160))
  q, alpha = gen.pick(rng, [0.0, 0.0, 0.05, 0.1, 0.2]), pick_alpha(rng)
  alternative = gen.pick(rng, ["two-sided", "two-sided", "greater", "less"])
  big = draw(400_000)
  # Only a shift moves the trimmed mean like the mean; only without trimming may the spreads differ.
  delta = 0.0 if gen.chance(rng, 0.6) else float(rng.normal() * 0.1 * big.mean())
  widen = gen.pick(rng, [1.0, 2.0]) if q == 0 else 1.0
  centre = population(big, q)
  r = repeats(ctx, 1000)
  runs = []
  for _ in range(r):
    x1, x2 = draw(n1), draw(n2)
    if widen != 1:
      x1 = big.mean() + widen * (x1 - big.mean())
    if kind == "normal" and q == 0:
      ctx.event("exact")
    runs.append(fs.yuens_t_test_ind(x1 + delta, x2, trimming_quantile=q, alternative=alternative, alpha=alpha))
  ctx.event("two_sample")
  ctx.event("trimmed", q > 0)
  ctx.event("one_sided", alternative != "two-sided")
  ctx.distinct("two", kind, n1, n2, q, alpha, alternative, delta)
  usable = all(v.relative_difference is not None for v in runs)
  judge_runs(ctx, runs, alpha, delta, delta / centre if usable else None, "two-sample", kind=kind, n1=n1, n2=n2, q=q,
             alternative=alternative, widen=widen)
  ctx.sample(test="two-sample", kind=kind, n1=n1, n2=n2, q=q, alpha=alpha, alternative=alternative, repeated=r,
             false_positives=sum(v.is_significant for v in runs) if delta == 0 else None)


@S09.scenario(quick=24, thorough=240)
def paired(ctx, rng):
  kind, scale, draw = process(rng)
  n = int(rng.integers(60, 200))
  q, alpha = gen.pick(rng, [0.0, 0.0, 0.05, 0.1, 0.2]), pick_alpha(rng)
  alternative = gen.pick(rng, ["two-sided", "two-sided", "greater", "less"])
  noise = scale * rng.uniform(0.05, 0.3)
  delta = 0.0 if gen.chance(rng, 0.6) else float(rng.normal() * 0.05 * scale)
  r = repeats(ctx, 1000)
  runs = []
  for _ in range(r):
    base = draw(n)
    runs.append(fs.yuens_t_test_paired(base + noise * rng.normal(size=n) + delta, base + noise * rng.normal(size=n),
                                       trimming_quantile=q, alternative=alternative, alpha=alpha))
  ctx.event("paired")
  ctx.event("trimmed", q > 0)
  ctx.event("one_sided", alternative != "two-sided")
  ctx.distinct("paired", kind, n, q, alpha, alternative, delta)
  usable = all(v.relative_difference is not None for v in runs)
  # Pairs are trimmed by their difference, so the average of the base is the mean.
  judge_runs(ctx, runs, alpha, delta, delta / float(draw(400_000).mean()) if usable else None, "paired", kind=kind, items=n, q=q,
             alternative=alternative)


def frame(rng, columns, arms):
  index = pd.MultiIndex.from_arrays([np.arange(len(arms)), arms], names=["item_id", "treatment_assignment"])
  names = list(columns)
  return pd.DataFrame(np.column_stack([columns[c] for c in names]), index=index, columns=pd.MultiIndex.from_tuples(names))


def arms_of(rng, n):
  return rng.permutation(np.arange(n) % 2) if gen.chance(rng, 0.5) else (rng.random(n) < 0.5).astype(int)


@S09.scenario(quick=16, thorough=160)
def adjusted(ctx, rng):
  kind, scale, draw = process(rng)
  n = int(rng.integers(120, 300))
  q = gen.pick(rng, [0.0, 0.0, 0.02, 0.1])
  design = gen.design(rng, n_items=n, crossover=False, pretest=2, pretrim=False, posttrim=False)
  alpha = design.alpha = pick_alpha(rng)
  noise = scale * rng.uniform(0.03, 0.3)
  slope = gen.pick(rng, [1.0, 0.5, -0.7])
  # The covariate and the metric are in different units, and the adjustment must not care.
  unit = 10.0 ** rng.uniform(-2, 2)
  delta = 0.0 if gen.chance(rng, 0.6) else float(rng.normal() * 0.05 * scale)
  r = repeats(ctx, 500)
  runs = []
  for _ in range(r):
    base, arms = draw(n), arms_of(rng, n)
    test = 3 * scale + slope * base + noise * rng.normal(size=n) + delta * arms
    runs.append(ea.analyze_single_metric(frame(rng, {("m", "pretest"): base * unit, ("m", "test"): test}, arms),
                                         design=design, metric_name="m", trimming_quantile_override=q))
  ctx.event("cuped")
  ctx.event("trimmed", q > 0)
  ctx.distinct("cuped", kind, n, q, alpha, slope, delta)
  mean = 3 * scale + slope * float(draw(400_000).mean())
  judge_runs(ctx, runs, alpha, delta, delta / mean, "adjusted", kind=kind, items=n, q=q, slope=slope)
  # The adjustment removes what the covariate explains.
  best = 2 * noise / math.sqrt(n)
  claimed = math.sqrt(np.mean([v.standard_error ** 2 for v in runs]))
  if q == 0:
    ctx.check(claimed <= 1.15 * best, "the adjustment does not remove the variance the pretest explains", claimed=claimed,
              best=best)


@S09.scenario(quick=16, thorough=160)
def crossover(ctx, rng):
  kind, scale, draw = process(rng)
  n = int(rng.integers(80, 300))
  q = gen.pick(rng, [0.0, 0.0, 0.02, 0.1])
  design = gen.design(rng, n_items=n, crossover=True)
  alpha = design.alpha = pick_alpha(rng)
  noise = scale * rng.uniform(0.05, 0.3)
  season = 0.0 if q else float(rng.normal() * scale)  # Aligned only without trimming.
  delta = 0.0 if gen.chance(rng, 0.6) else float(rng.normal() * 0.03 * scale)
  r = repeats(ctx, 500)
  runs = []
  for _ in range(r):
    base, arms = 3 * scale + draw(n), rng.permutation(np.arange(n) % 2)
    first = base + noise * rng.normal(size=n) + delta * arms
    second = base + noise * rng.normal(size=n) + delta * (1 - arms) + season
    runs.append(ea.analyze_single_metric(frame(rng, {("m", "test_1"): first, ("m", "test_2"): second}, arms),
                                         design=design, metric_name="m", trimming_quantile_override=q))
  ctx.event("crossover")
  ctx.event("trimmed", q > 0)
  ctx.distinct("crossover", kind, n, q, alpha, delta)
  mean = 3 * scale + float(draw(400_000).mean()) + season / 2
  judge_runs(ctx, runs, alpha, delta, delta / mean, "crossover", kind=kind, items=n, q=q, season=season)


@S09.scenario(quick=16, thorough=160)
def ratio(ctx, rng):
  kind, scale, draw = process(rng)
  n = int(rng.integers(120, 300))
  is_crossover = gen.chance(rng, 0.4)
  design = gen.design(rng, n_items=n, crossover=is_crossover, posttrim=False, **({} if is_crossover else {"pretest": 0}))
  alpha = design.alpha = pick_alpha(rng)
  rate = float(rng.uniform(0.01, 5))
  noise = rate * rng.uniform(0.1, 0.4)
  uplift = 0.0 if gen.chance(rng, 0.6) else float(rng.normal() * 0.05)
  r = repeats(ctx, 500)
  runs = []
  for _ in range(r):
    base, arms = draw(n), rng.permutation(np.arange(n) % 2)
    columns = {}
    for period, treated in (("test_1", arms), ("test_2", 1 - arms)) if is_crossover else (("test", arms),):
      denominator = base * rng.lognormal(0, 0.1, n)
      columns["d", period] = denominator
      columns["m", period] = denominator * (rate + noise * rng.normal(size=n)) * (1 + uplift * treated)
    runs.append(ea.analyze_single_metric(frame(rng, columns, arms), design=design, metric_name="m",
                                         denominator_metric_name="d", trimming_quantile_override=0.0))
  ctx.event("ratio")
  ctx.distinct("ratio", kind, n, is_crossover, alpha, uplift)
  usable = all(v.relative_difference is not None for v in runs)
  judge_runs(ctx, runs, alpha, uplift * rate, uplift if usable else None, "ratio", kind=kind, items=n, crossover=is_crossover)


@S09.scenario(quick=24, thorough=240)
def power(ctx, rng):
  """An effect of the size of the minimum detectable effect is found at the target power."""
  kind, scale, draw = process(rng)
  is_paired = gen.chance(rng, 0.5)
  n = 2 * int(rng.integers(50, 130))
  q, alpha = gen.pick(rng, [0.0, 0.0, 0.05, 0.1]), pick_alpha(rng)
  target = gen.pick(rng, [0.8, 0.9, 0.5, 0.7])
  alternative = gen.pick(rng, ["two-sided", "two-sided", "greater"])
  noise = scale * 0.2
  make = (lambda k: noise * rng.normal(size=k) * math.sqrt(2)) if is_paired else draw
  big = fs.TrimmedArray(make(200_000), q)
  sd = float(big.std(ddof=1))
  kept = n - 2 * math.floor(n * q)
  options = dict(sample_size=kept, alternative=alternative, power=target, alpha=alpha)
  if is_paired:
    mde = fs.yuens_t_test_paired_minimum_detectable_effect(difference_standard_deviation=sd, **options)
  else:
    # Both arms are trimmed by themselves, so the sample is what is left of both.
    kept = 2 * (n // 2 - 2 * math.floor(n // 2 * q))
    options["sample_size"] = kept
    mde = fs.yuens_t_test_ind_minimum_detectable_effect(standard_deviation=sd, **options)
  mde = float(mde)
  r = repeats(ctx, 1000)
  found = 0
  for _ in range(r):
    if is_paired:
      base = draw(n)
      result = fs.yuens_t_test_paired(base + noise * rng.normal(size=n) + mde, base + noise * rng.normal(size=n),
                                      trimming_quantile=q, alternative=alternative, alpha=alpha)
    else:
      result = fs.yuens_t_test_ind(draw(n // 2) + mde, draw(n // 2), trimming_quantile=q, alternative=alternative, alpha=alpha)
    found += result.is_significant
  ctx.event("power")
  ctx.event("experiments", r)
  ctx.event("trimmed", q > 0)
  ctx.distinct("power", is_paired, kind, n, q, alpha, target, alternative)
  judge_rate(ctx, found, r, target, "power at the minimum detectable effect", kind=kind, items=n, q=q, alpha=alpha,
             alternative=alternative, paired=is_paired, mde=mde)
