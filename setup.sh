#!/bin/bash
# Nothing to compile: the monitors are Python and run on the repository's own interpreter.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1
PYTHONPATH=/verif:/repo/src /opt/venv/bin/python - <<'P'
import ast, pathlib
for p in sorted(pathlib.Path(".").glob("vf/*.py")) + sorted(pathlib.Path(".").glob("checks/*.py")):
    ast.parse(p.read_text(), str(p))
import numpy, scipy, sklearn, torch  # what the oracles use
print("setup ok")
P
