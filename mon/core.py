"""Runs monitored workloads of the real code and reports what the monitors saw.

A property is a list of scenarios. A scenario runs the real feedx code on one
seeded random workload ("case") and its monitors (`ctx.check`, `ctx.close`, ...)
decide whether what was observed is allowed. The cases are spread over forked
worker processes; the verdict is three-valued:

  exit 0  every monitor was quiet, and every required kind of event was seen,
  exit 1  a monitor fired: a VIOLATION line with a replay file,
  exit 3  inconclusive: a required kind of event was never observed, or a worker
          was lost (this is an error of the check, never folded into the others).
"""

import collections
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import pathlib
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get("FEEDX_REPO", "/repo")


# The thorough tier goes on until its cases or its time run out.
THOROUGH = 8
QUICK = 3
SLOW = {"S09": 1, "R02": 1, "M02": 1, "E01": 2, "M04": 2}  # These take more seconds per case.


class Violation(Exception):
  """A monitor observed something the property does not allow."""

  def __init__(self, message, detail=None, key=None):
    super().__init__(message)
    self.message = message
    self.detail = detail or {}
    self.key = key


def jsonable(x, depth=0):
  """A short json version of any observed value."""
  if depth > 5:
    return str(x)[:200]
  if isinstance(x, dict):
    return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
  if isinstance(x, (list, tuple, set, frozenset)):
    return [jsonable(v, depth + 1) for v in list(x)[:60]]
  if isinstance(x, np.ndarray):
    return [jsonable(v, depth + 1) for v in x.ravel()[:60].tolist()]
  if isinstance(x, np.generic):
    return jsonable(x.item(), depth + 1)
  if isinstance(x, float):
    return x if np.isfinite(x) else repr(x)
  if isinstance(x, (int, bool, str)) or x is None:
    return x if not isinstance(x, str) else x[:2000]
  return repr(x)[:1000]


class Ctx:
  """What the monitors of one worker have seen."""

  def __init__(self, known_keys=()):
    self.events = collections.Counter()
    self.keys = set()
    self.samples = []
    self.known_keys = set(known_keys)
    self.known_hit = {}
    self.tier = "quick"

  def event(self, name, n=1):
    self.events[name] += int(n)

  def distinct(self, *key):
    self.keys.add(hashlib.md5(repr(key).encode()).digest()[:8])

  def sample(self, **kw):
    if len(self.samples) < 4:
      self.samples.append(jsonable(kw))

  def fail(self, message, key=None, **detail):
    if key is not None and key in self.known_keys:
      self.known_hit[key] = message
      return
    raise Violation(message, jsonable(detail), key)

  def check(self, ok, message, key=None, **detail):
    self.events["monitor_checks"] += 1
    if not ok:
      self.fail(message, key, **detail)

  def equal(self, got, want, message, **detail):
    self.events["monitor_checks"] += 1
    if isinstance(got, (np.ndarray, list)) or isinstance(want, np.ndarray):
      same = len(got) == len(want) and all(a == b for a, b in zip(got, want))
    else:
      same = bool(got == want)
    if not same:
      self.fail(message, got=got, want=want, **detail)

  def close(self, got, want, message, rtol=1e-9, atol=0.0, **detail):
    """Equal up to tolerance; inf equals inf, nan equals nan, None equals None."""
    self.events["monitor_checks"] += 1
    if got is None or want is None:
      ok = got is None and want is None
    else:
      g = np.asarray(got, dtype=float)
      w = np.asarray(want, dtype=float)
      ok = g.shape == w.shape and bool(
          np.all(np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True))
      )
    if not ok:
      self.fail(message, got=got, want=want, rtol=rtol, atol=atol, **detail)

  @contextlib.contextmanager
  def raises(self, exc, message, **detail):
    """The block must raise `exc`."""
    self.events["monitor_checks"] += 1
    try:
      yield
    except exc:
      self.events["expected_errors"] += 1
      return
    except Violation:
      raise
    except Exception as e:  # pylint: disable=broad-except
      self.fail(
          f"{message}: raised {type(e).__name__} instead of {exc}",
          error=str(e)[:500], **detail)
      return
    self.fail(f"{message}: nothing was raised", **detail)


def outcome(fn, *args, **kwargs):
  """("ok", result) or ("error", exception), for code that may raise."""
  try:
    return "ok", fn(*args, **kwargs)
  except Exception as e:  # pylint: disable=broad-except
    return "error", e


@contextlib.contextmanager
def captured():
  """Captures what the code prints."""
  buffer = io.StringIO()
  with contextlib.redirect_stdout(buffer):
    yield buffer


class Property:
  """A property, its scenarios and what must have been observed to decide it."""

  def __init__(self, id_, rule, require=None, assumptions=()):
    self.id = id_
    self.rule = rule
    self.require = dict(require or {})
    self.assumptions = list(assumptions)
    self.scenarios = []

  def scenario(self, quick, thorough=None):
    def deco(fn):
      self.scenarios.append(
          (fn.__name__, fn, quick, thorough if thorough is not None else quick * 20))
      return fn
    return deco


def case_rng(prop_id, scenario, seed, index):
  tag = zlib.crc32(f"{prop_id}/{scenario}".encode())
  return np.random.default_rng([seed & 0xFFFFFFFF, tag, index])


def run_case(prop, ctx, name, fn, seed, index):
  """Runs one case. Returns None or a dict describing the violation."""
  rng = case_rng(prop.id, name, seed, index)
  try:
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      with np.errstate(all="ignore"):
        fn(ctx, rng)
    return None
  except Violation as v:
    return dict(property=prop.id, scenario=name, index=index, seed=seed,
                message=v.message, detail=v.detail, key=v.key)
  except MemoryError:
    raise
  except Exception as e:  # pylint: disable=broad-except
    return dict(property=prop.id, scenario=name, index=index, seed=seed,
                message=f"unexpected {type(e).__name__}: {e}"[:800],
                detail={"traceback": traceback.format_exc()[-3000:]}, key=None)


def _worker(prop, seed, tier, tasks, deadline, conn, known_keys):
  null = open(os.devnull, "w")  # pylint: disable=consider-using-with
  sys.stdout = null
  sys.stderr = null
  ctx = Ctx(known_keys)
  ctx.tier = tier
  violations, done, stopped = [], 0, False
  per_scenario = collections.Counter()
  try:
    for name, fn, index in tasks:
      if time.time() > deadline:
        stopped = True
        break
      violation = run_case(prop, ctx, name, fn, seed, index)
      done += 1
      per_scenario[name] += 1
      if violation is not None:
        violations.append(violation)
        if len(violations) >= 3:
          break
    conn.send(dict(events=dict(ctx.events), keys=ctx.keys, samples=ctx.samples,
                   violations=violations, done=done, stopped=stopped,
                   per_scenario=dict(per_scenario), known=ctx.known_hit))
  finally:
    conn.close()


def known_findings(prop_id):
  """Mechanism keys listed in known_findings.txt as unrepaired findings."""
  keys = {}
  path = ROOT / "known_findings.txt"
  if path.exists():
    for line in path.read_text().splitlines():
      parts = line.split(None, 3)
      if len(parts) == 4 and parts[0] == "finding:" and parts[1] == f"property={prop_id}":
        keys[parts[2].removeprefix("key=")] = parts[3]
  return keys


def run(prop, tier, seed, soft, hard, workers=8):
  start = time.time()
  tasks = []
  for s, (name, fn, quick, thorough) in enumerate(prop.scenarios):
    n = quick * SLOW.get(prop.id, QUICK) if tier == "quick" else thorough * THOROUGH
    tasks += [((i + 0.5) / n, s, i, name, fn) for i in range(n)]
  tasks.sort(key=lambda t: t[:3])
  tasks = [(name, fn, i) for _, _, i, name, fn in tasks]
  known = known_findings(prop.id)

  context = multiprocessing.get_context("fork")
  running = []
  for w in range(workers):
    recv, send = context.Pipe(duplex=False)
    process = context.Process(
        target=_worker,
        args=(prop, seed, tier, tasks[w::workers], start + soft, send, known))
    process.start()
    send.close()
    running.append((process, recv))

  reports, lost = [], 0
  for process, recv in running:
    try:
      if recv.poll(max(0.1, start + hard - time.time())):
        reports.append(recv.recv())
      else:
        lost += 1
    except EOFError:
      lost += 1
  for process, _ in running:
    process.join(1)
    if process.is_alive():
      process.kill()

  events, keys, samples, violations = collections.Counter(), set(), [], []
  per_scenario, known_hit = collections.Counter(), {}
  for r in reports:
    events.update(r["events"])
    per_scenario.update(r["per_scenario"])
    keys |= r["keys"]
    violations += r["violations"]
    known_hit.update(r["known"])
  for group in zip(*[r["samples"] for r in reports if r["samples"]]):
    samples += group
  violations.sort(key=lambda v: (v["scenario"], v["index"]))

  done = sum(r["done"] for r in reports)
  unseen = {k: v for k, v in prop.require.items() if events[k] < v}
  evidence = dict(
      property=prop.id, tier=tier, seed=seed, level="exploration",
      coverage=dict(
          evaluations=done, distinct_nontrivial=len(keys), rule=prop.rule,
          samples=samples[:8] or [{"note": "no sample recorded"}],
          planned_cases=len(tasks), stopped_by_time=any(r["stopped"] for r in reports),
          cases_per_scenario=dict(per_scenario),
          monitor_events=dict(sorted(events.items())),
          required_events=prop.require),
      wall_s=round(time.time() - start, 2), violations=len(violations),
      assumptions=prop.assumptions)
  (ROOT / "evidence").mkdir(exist_ok=True)
  (ROOT / "evidence" / f"{prop.id}.json").write_text(
      json.dumps(evidence, indent=1, sort_keys=True) + "\n")

  for key in known_hit:
    print(f"KNOWN-FINDING: property={prop.id} {known[key]}")
  if violations:
    v = violations[0]
    folder = ROOT / "evidence" / "replay"
    folder.mkdir(exist_ok=True)
    path = folder / f"{prop.id}-{v['scenario']}-{v['index']}.json"
    path.write_text(json.dumps(dict(v, tier=tier), indent=1, default=str) + "\n")
    print(f"{prop.id} {v['scenario']}[{v['index']}]: {v['message']}")
    print(json.dumps(v["detail"], default=str)[:1500])
    print(f"VIOLATION property={prop.id} replay={path}")
    return 1
  if lost:
    print(f"INCONCLUSIVE property={prop.id}: {lost} workers were lost")
    return 3
  if unseen:
    print(f"INCONCLUSIVE property={prop.id}: too few events observed: "
          f"{ {k: (events[k], v) for k, v in unseen.items()} }")
    return 3
  print(f"HELD property={prop.id} cases={done} distinct={len(keys)} "
        f"monitor_checks={events['monitor_checks']} wall={evidence['wall_s']}s")
  return 0


def replay(prop, path):
  """Runs the one case of a replay file again, in this process."""
  v = json.loads(pathlib.Path(path).read_text())
  fns = {name: fn for name, fn, _, _ in prop.scenarios}
  ctx = Ctx(known_findings(prop.id))
  ctx.tier = v.get("tier", "quick")
  again = run_case(prop, ctx, v["scenario"], fns[v["scenario"]], v["seed"], v["index"])
  if again is None:
    print(f"HELD property={prop.id} on the replayed case")
    return 0
  print(json.dumps(again, indent=1, default=str))
  print(f"VIOLATION property={prop.id} replay={path}")
  return 1
