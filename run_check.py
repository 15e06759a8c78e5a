"""run_check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--scale X]"""

import argparse
import importlib
import os
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent


def main():
  parser = argparse.ArgumentParser()
  parser.add_argument("property")
  parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  parser.add_argument("--replay")
  parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
  parser.add_argument("--workers", type=int, default=8)
  args = parser.parse_args()

  sys.path.insert(0, str(HERE))
  from mon import core  # pylint: disable=g-import-not-at-top
  sys.path.insert(0, core.REPO)
  import feedx  # pylint: disable=g-import-not-at-top
  if not str(pathlib.Path(feedx.__file__).resolve()).startswith(
      str(pathlib.Path(core.REPO).resolve()) + os.sep):
    print(f"ERROR feedx was imported from {feedx.__file__}")
    return 2

  from checks import PROPERTIES  # pylint: disable=g-import-not-at-top
  module = importlib.import_module("checks." + PROPERTIES[args.property])
  prop = module.PROPS[args.property]
  if args.replay:
    return core.replay(prop, args.replay)
  soft, hard = (200, 600) if args.tier == "quick" else (540, 840)
  return core.run(prop, args.tier, args.seed, soft, hard, args.workers)


if __name__ == "__main__":
  sys.exit(main())
