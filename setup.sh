#!/bin/bash
# Checks that everything the checks need is here. Nothing has to be built.
cd "$(dirname "$(realpath "$0")")" || exit 2
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c 'import numpy, pandas, scipy, matplotlib, yaml, jinja2; import mon.core'
