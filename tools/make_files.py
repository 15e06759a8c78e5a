"""Writes properties.jsonl and MANIFEST.json from the catalog."""

import importlib
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(ROOT), str(ROOT / "tools"), "/repo"]

import catalog  # pylint: disable=g-import-not-at-top
import checks

lines, claimed, unclaimed = [], [], []
for p in catalog.PROPERTIES:
  lines.append(json.dumps(dict(
      id=p["id"], title=p["title"], statement=p["statement"],
      quantifier=dict(over=p["over"], text=p["quant"]),
      why_tests_cant=p["why"],
      anchors=dict(files=p["files"],
                   mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                   observe_at=p["observe"], hook_needed=None)), ensure_ascii=False))
  module = ROOT / "checks" / (checks.PROPERTIES[p["id"]] + ".py")
  has = module.exists() and p["id"] in importlib.import_module(
      "checks." + checks.PROPERTIES[p["id"]]).PROPS
  if has:
    claimed.append(dict(
        property=p["id"],
        quick_cmd=f"./check.sh {p['id']} quick",
        thorough_cmd=f"./check.sh {p['id']} thorough",
        technique=p["technique"], level="exploration",
        level_note=p["note"] + " Holds on the executions the monitors saw; says nothing beyond"
        " them. Trusts numpy, pandas, scipy and the reference models in mon/ref.py."))
  else:
    unclaimed.append(dict(property=p["id"], reason="the monitor for it is not built yet"))
(ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
(ROOT / "MANIFEST.json").write_text(json.dumps(dict(
    version=1, setup_cmd="./setup.sh", checks=claimed, not_applicable=unclaimed,
    notes="Pure python: checks import feedx from /repo's working tree, nothing is built. No hooks"
    " are needed in /repo."), indent=1) + "\n")
print(len(claimed), "claimed,", len(unclaimed), "not")
