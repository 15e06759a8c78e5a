"""Reference models: what the properties say, written without feedx code.

Everything here is computed from definitions (sorting, explicit winsorizing,
dictionary sums, calendar arithmetic), independently of how feedx does it.
"""

import datetime as dt
import hashlib
import math

import numpy as np
from scipy import special

INF = float("inf")


# ------------------------------------------------------------ randomisation
def coinflip(salt, item):
  """Parity of md5(salt + item), read from the last byte of the digest."""
  return hashlib.md5((salt + str(item)).encode("utf-8")).digest()[15] & 1


# ------------------------------------------------------------------ designs
def n_floor(fraction, n):
  return int(math.floor(float(fraction) * n))


def design_counts(n, top, bottom, post):
  after_pre = n - n_floor(top, n) - n_floor(bottom, n)
  return after_pre, after_pre - 2 * n_floor(post, after_pre)


def design_problems(p):
  """The documented constraints that the parameters break."""
  bad = []
  if not p["runtime_weeks"] > 0:
    bad.append("runtime")
  if not p["pretest_weeks"] >= 0:
    bad.append("pretest")
  top, bottom, post = (p["pre_trim_top_percentile"],
                       p["pre_trim_bottom_percentile"], p["post_trim_percentile"])
  if top < 0 or bottom < 0 or post < 0:
    bad.append("negative trim")
  if top + bottom >= 1:
    bad.append("pre-trim sum")
  if post >= 0.5:
    bad.append("post-trim")
  if p["pretest_weeks"] == 0 and (top > 0 or bottom > 0):
    bad.append("pre-trim without pretest")
  if p["is_crossover"]:
    w = p["crossover_washout_weeks"]
    if w is None or w < 0:
      bad.append("washout")
    elif not p["runtime_weeks"] > 2 * w:
      bad.append("washout too long")
    if p["runtime_weeks"] % 2:
      bad.append("odd crossover")
  if design_counts(p["n_items_before_trimming"], top, bottom, post)[1] <= 50:
    bad.append("too few items")
  return bad


def period_label(week, start, design):
  """The period of a week, by walking the design's calendar."""
  offset = week - start
  if offset < 0:
    return "pretest" if offset >= -design.pretest_weeks else None
  if offset >= design.runtime_weeks:
    return None
  if not design.is_crossover:
    return "test"
  half = design.runtime_weeks // 2
  second, position = divmod(offset, half)
  washout = position < design.crossover_washout_weeks
  return ("washout_" if washout else "test_") + str(second + 1)


def period_weeks(design):
  """How many weeks each period has."""
  weeks = {}
  for w in range(-design.pretest_weeks, design.runtime_weeks):
    label = period_label(w, 0, design)
    weeks[label] = weeks.get(label, 0) + 1
  return weeks


# ------------------------------------------------------- trimmed statistics
class Trimmed:
  """Trimmed and winsorized statistics of the rows of a 2d array.

  The winsorized sample is built explicitly: the columns trimmed from each side
  are replaced by the most extreme column that is kept.
  """

  def __init__(self, values, quantile):
    x = np.atleast_2d(np.asarray(values, dtype=float))
    self.n = x.shape[1]
    self.g = n_floor(quantile, self.n)
    order = sorted(range(self.n), key=lambda i: x[0, i])
    kept = order[self.g: self.n - self.g]
    self.h = len(kept)
    self.kept = x[:, kept]
    self.wins = np.concatenate(
        [np.repeat(x[:, kept[:1]], self.g, axis=1), self.kept,
         np.repeat(x[:, kept[-1:]], self.g, axis=1)], axis=1)
    self.mean = self.kept.mean(axis=1)
    self.wmean = self.wins.mean(axis=1)

  def cov(self, ddof=0):
    r = self.wins - self.wmean[:, None]
    return (r @ r.T) / (self.h - ddof)

  def var(self, ddof=0):
    return np.diag(self.cov(ddof))


def tied_at_cut(first_row, quantile):
  """Is the choice of the trimmed columns ambiguous?"""
  x = np.sort(np.asarray(first_row, dtype=float))
  g = n_floor(quantile, len(x))
  return g > 0 and (x[g - 1] == x[g] or x[-g] == x[-g - 1])


def cuped(metric, covariate, quantile):
  """The covariate adjustment; None if the variance comparison is a near tie."""
  y = np.asarray(metric, dtype=float)
  x = np.asarray(covariate, dtype=float)
  if np.all(x == x[0]):
    return y
  yc, xc = y - y.mean(), x - x.mean()
  adjusted = y - (yc @ xc) / (xc @ xc) * xc
  first = Trimmed(np.stack([adjusted, y, x]), quantile)
  if first.g == 0:
    return adjusted
  c = first.cov()
  no_offset = y - c[1, 2] / c[2, 2] * x
  before, after = Trimmed(y, quantile), Trimmed(no_offset, quantile)
  v_before, v_after = before.var()[0], after.var()[0]
  if abs(v_before - v_after) <= 1e-9 * v_before:
    return None
  if v_after < v_before:
    return no_offset + before.mean[0] - after.mean[0]
  return y


# ------------------------------------------------------------------- t-tests
def t_quantile(p, df):
  return float(special.stdtrit(df, p))


def t_cdf(x, df):
  return float(special.stdtr(df, x))


def p_value(t, df, alternative):
  if alternative == "two-sided":
    return 2 * t_cdf(-abs(t), df)
  return t_cdf(-t if alternative == "greater" else t, df)


def critical(df, alternative, alpha):
  return -t_quantile(alpha / 2 if alternative == "two-sided" else alpha, df)


def finish(m1, m2, v1, v2, c12, difference, variance, df, n, alternative, alpha):
  """All the fields of a result from means and (co)variances of the means."""
  se = math.sqrt(variance)
  t = difference / se if se > 0 else math.copysign(INF, difference)
  p = p_value(t, df, alternative)
  crit = critical(df, alternative, alpha)
  return dict(
      statistic=t, p_value=p, alpha=alpha, is_significant=p < alpha,
      absolute_difference=difference,
      absolute_difference_lower_bound=(
          -INF if alternative == "less" else difference - crit * se),
      absolute_difference_upper_bound=(
          INF if alternative == "greater" else difference + crit * se),
      standard_error=se, degrees_of_freedom=df, sample_size=n,
      control_average=m2,
      relative_difference=(m1 / m2 - 1 if m2 != 0 else None)
      if m1 >= 0 and m2 >= 0 else None,
      _m1=m1, _m2=m2, _v1=v1, _v2=v2, _c12=c12, _crit=crit)


def _ratio(tr, i, j):
  """Ratio of two trimmed means and the gradient, by a complex step."""
  m = tr.mean.astype(complex)
  grad = np.zeros(len(m))
  for k in (i, j):
    z = m.copy()
    z[k] += 1e-30j
    grad[k] = (z[i] / z[j]).imag / 1e-30
  return float((m[i] / m[j]).real), grad


def ttest_ind(x1, x2, quantile, d1=None, d2=None, equal_var=False,
              alternative="two-sided", alpha=0.05):
  means, variances, sizes = [], [], []
  for x, d in ((x1, d1), (x2, d2)):
    if d is None:
      tr = Trimmed(x, quantile)
      means.append(float(tr.mean[0]))
      variances.append(float(tr.var(1)[0]))
    else:
      tr = Trimmed(np.stack([x, d]), quantile)
      ratio, grad = _ratio(tr, 0, 1)
      means.append(ratio)
      variances.append(float(grad @ tr.cov(1) @ grad))
    sizes.append(tr.h)
  (m1, m2), (s1, s2), (n1, n2) = means, variances, sizes
  if equal_var:
    pooled = ((n1 - 1) * s1 + (n2 - 1) * s2) / (n1 + n2 - 2)
    v1, v2, df = pooled / n1, pooled / n2, n1 + n2 - 2
  else:
    v1, v2 = s1 / n1, s2 / n2
    df = (v1 + v2) ** 2 / (v1**2 / (n1 - 1) + v2**2 / (n2 - 1))
  return finish(m1, m2, v1, v2, 0.0, m1 - m2, v1 + v2, df, n1 + n2, alternative, alpha)


def ttest_paired(x1, x2, quantile, d1=None, d2=None, alternative="two-sided", alpha=0.05):
  if d1 is None:
    tr = Trimmed(np.stack([x1 - x2, x1, x2]), quantile)
    c = tr.cov(1) / tr.h
    return finish(float(tr.mean[1]), float(tr.mean[2]), c[1, 1], c[2, 2], c[1, 2],
                  float(tr.mean[0]), float(c[0, 0]), tr.h - 1, tr.h, alternative, alpha)
  tr = Trimmed(np.stack([x1 - x2, x1, d1, x2, d2]), quantile)
  c = tr.cov(1) / tr.h
  r1, g1 = _ratio(tr, 1, 2)
  r2, g2 = _ratio(tr, 3, 4)
  v1, v2, c12 = g1 @ c @ g1, g2 @ c @ g2, g1 @ c @ g2
  return finish(r1, r2, v1, v2, c12, r1 - r2, (g1 - g2) @ c @ (g1 - g2),
                tr.h - 1, tr.h, alternative, alpha)


def relative_interval_problem(m1, m2, v1, v2, c12, crit, alternative, lower, upper):
  """Is (lower, upper) the interval of relative differences that are not rejected?

  Inverts the test "mean_1 = r * mean_2" directly. Returns a message if the
  interval is wrong, None if it is right.
  """
  lower, upper = float(lower), float(upper)
  scale = math.sqrt(m1 * m1 + crit**2 * v1) / math.sqrt(m2 * m2 + crit**2 * v2)

  def excess(r):
    """> 0 if the ratio r is rejected, relative to the size of its terms."""
    a = (m1 - r * m2) ** 2
    b = crit**2 * (v1 + r * r * v2 - 2 * r * c12)
    size = m1 * m1 + r * r * m2 * m2 + crit**2 * (v1 + r * r * v2)
    return (a - b) / size if size > 0 else 0.0

  eps = 1e-7
  if math.isnan(lower) or math.isnan(upper) or lower > upper:
    return "the bounds are not an interval"
  if lower < -1 - 1e-12:
    return "the lower bound is below -100%"
  low_r, high_r = lower + 1, upper + 1
  grid = [scale * 10.0**e for e in np.linspace(-6, 6, 97)] + [0.0]
  if alternative == "less":
    if lower != -1:
      return "the lower bound of a one-sided interval is not -100%"
  else:
    # Bounds next to -100% only have the precision of the difference to -1.
    if low_r > max(1e-9 * scale, 1e-8):
      if excess(low_r) < -eps:
        return "the lower bound is strictly inside the accepted region"
      for r in grid + [low_r * f for f in (0, 0.25, 0.5, 0.9, 0.99)]:
        if r < low_r * (1 - 1e-6) and excess(r) < -eps:
          return f"an accepted relative difference {r - 1} is below the lower bound"
      if excess(low_r) > eps:
        return "the lower bound is rejected by the test"
    elif low_r <= 1e-9 * scale and excess(0.0) > eps:
      # The hull may only start at 0 if values just above 0 are accepted.
      if min(excess(r) for r in grid if 0 < r <= 1e-3 * scale) > eps:
        return "the lower bound is rejected by the test"
  if alternative == "greater":
    if upper != INF:
      return "the upper bound of a one-sided interval is not infinite"
  else:
    if math.isinf(upper):
      if m2 * m2 > crit**2 * v2 * (1 + 1e-9):
        return "the upper bound is infinite although the control mean is not near 0"
    elif high_r > 1e-8:
      if abs(excess(high_r)) > eps:
        return "the upper bound is not at the boundary of the accepted region"
      for r in grid + [high_r * f for f in (1.01, 1.1, 2, 10, 1e4)]:
        if r > high_r * (1 + 1e-6) and excess(r) < -eps:
          return f"an accepted relative difference {r - 1} is above the upper bound"
  if m2 > 0:
    estimate = m1 / m2 - 1
    slack = 1e-9 * (1 + abs(estimate))
    if not lower - slack <= estimate <= upper + slack:
      return "the interval does not contain the estimate"
  return None


# ----------------------------------------------------------------- calendar
def as_date(value):
  """A date from a date, datetime, pandas timestamp or YYYY-MM-DD text."""
  if isinstance(value, str):
    return dt.date.fromisoformat(value[:10])
  if hasattr(value, "date"):
    return value.date()
  return value


def week_of(date, start):
  return (as_date(date).toordinal() - as_date(start).toordinal()) // 7


def week_start(week, start):
  return dt.date.fromordinal(as_date(start).toordinal() + 7 * week)


# ------------------------------------------------------------ pivot/analysis
def pivot(rows, start, design, metrics):
  """{item: {(metric, period): weekly average}} from (item, week, {metric: value})."""
  weeks = period_weeks(design)
  out = {}
  for item, week, values in rows:
    label = period_label(week, start, design)
    if label is None:
      continue
    cell = out.setdefault(item, {})
    for m in metrics:
      cell[m, label] = cell.get((m, label), 0.0) + values[m]
  for cell in out.values():
    for (m, label) in cell:
      cell[m, label] /= weeks[label]
    for m in metrics:
      for label in weeks:
        cell.setdefault((m, label), 0.0)
  return out


def analysis_samples(pivoted, treatment, design, metric, quantile):
  """The (treatment, control) samples that the designed test compares.

  None if they are not well defined (a near tie of the covariate adjustment).
  """
  items = list(pivoted)
  treated = np.array([treatment[i] == 1 for i in items])

  def column(period):
    return np.array([pivoted[i][metric, period] for i in items], dtype=float)

  if design.is_crossover:
    y1, y2 = column("test_1"), column("test_2")
    t, c = np.where(treated, y1, y2), np.where(treated, y2, y1)
    if quantile == 0:
      # Without trimming both periods get the same mean, keeping the control mean.
      d1, d2 = y1 - y1.mean(), y2 - y2.mean()
      td, cd = np.where(treated, d1, d2), np.where(treated, d2, d1)
      shift = c.mean() - cd.mean()
      t, c = td + shift, cd + shift
    return t, c
  y = column("test")
  if design.pretest_weeks > 0:
    y = cuped(y, column("pretest"), quantile)
    if y is None:
      return None
  return y[treated], y[~treated]


def analyze(pivoted, treatment, design, metric, denominator=None, quantile=None):
  quantile = design.post_trim_percentile if quantile is None else quantile
  samples = analysis_samples(pivoted, treatment, design, metric, quantile)
  denominators = (None, None)
  if denominator is not None:
    denominators = analysis_samples(pivoted, treatment, design, denominator, quantile)
  if samples is None or denominators is None:
    return None
  test = ttest_paired if design.is_crossover else ttest_ind
  return test(*samples, quantile, *denominators, alpha=design.alpha)


FIELDS = [
    "statistic", "p_value", "alpha", "is_significant", "absolute_difference",
    "absolute_difference_lower_bound", "absolute_difference_upper_bound",
    "standard_error", "degrees_of_freedom", "sample_size", "control_average",
    "relative_difference",
]


def compare_result(ctx, got, want, what, rtol=1e-7, noise=0.0):
  """Monitors every field of a statistical result against the reference.

  `got` is a mapping of the result's fields. `noise` is the absolute size of the
  rounding error to allow for in the difference (scale of the data).
  """
  se = want["standard_error"]
  for field in FIELDS:
    g, w = got[field], want[field]
    if field == "is_significant":
      margin = abs(want["p_value"] - want["alpha"])
      if margin > 1e-9:
        ctx.check(bool(g) == w, f"{what}: wrong {field}", got=g, want=w)
      continue
    if field == "relative_difference" and w is None:
      if want["_m1"] < -noise or want["_m2"] < -noise:
        ctx.check(g is None or g != g, f"{what}: {field} for a negative mean", got=g)
      continue
    atol = noise
    if field == "statistic":
      atol = noise / se if se > 0 else INF
    elif field in ("p_value", "alpha"):
      atol = 1e-9 + (noise / se if se > 0 else INF)
    elif field in ("degrees_of_freedom", "sample_size"):
      atol = 1e-9
    elif field.endswith("_bound"):
      # The difference of the estimate and a multiple of the standard error.
      atol = noise + 1e-9 * (abs(want["absolute_difference"]) + abs(want["_crit"]) * se)
    elif field == "relative_difference":
      atol = noise / max(abs(want["_m2"]), 1e-300) + 1e-9
    ctx.close(g, w, f"{what}: wrong {field}", rtol=rtol, atol=atol)
  g_lo, g_hi = (got["relative_difference_lower_bound"],
                got["relative_difference_upper_bound"])
  if want["_m1"] > noise and want["_m2"] > noise:
    alternative = "two-sided"
    if got["absolute_difference_lower_bound"] == -INF:
      alternative = "less"
    elif got["absolute_difference_upper_bound"] == INF:
      alternative = "greater"
    problem = relative_interval_problem(
        want["_m1"], want["_m2"], want["_v1"], want["_v2"], want["_c12"],
        want["_crit"], alternative, g_lo, g_hi)
    ctx.check(problem is None, f"{what}: relative interval: {problem}",
              interval=(g_lo, g_hi), want=want)
  elif want["_m1"] < -noise or want["_m2"] < -noise:
    ctx.check((g_lo is None or g_lo != g_lo) and (g_hi is None or g_hi != g_hi),
              f"{what}: relative interval for a negative mean", interval=(g_lo, g_hi))
