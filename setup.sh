#!/bin/bash
# Nothing to compile: the encoding is regenerated from /repo on every run.
# Confirms that the tools are there and that the translator agrees with
# CPython on a first harness.
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
mkdir -p evidence
python3-vt -m sx.main P05 --tier quick --budget 120 > /dev/null
echo ok
