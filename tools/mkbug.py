"""mkbug.py SPEC.py: write seeded/<id>/ from a spec defining id, property, needs, breaks, edits, demo.

edits: list of (file, old, new). demo: python source whose main raises/asserts when the bug is present.
"""
import json
import os
import subprocess
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
REPO = os.environ.get("MKBUG_REPO", "/repo")  # a clone, when /repo is busy


def make(id, property, needs, breaks, edits, demo):
    assert not subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
    d = HERE / "seeded" / id
    d.mkdir(parents=True, exist_ok=True)
    try:
        for f, old, new in edits:
            p = Path(REPO) / f
            s = p.read_text()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    (d / "patch.diff").write_text(diff)
    (d / "demo.py").write_text(demo.lstrip("\n"))
    (d / "demo.sh").write_text('''#!/bin/bash
# exit 0 when the property holds, nonzero with the planted bug; all effects stay in a scratch folder
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src:$PWD" MODSSC_CACHE_ROOT="$work/cache" TMPDIR="$work" DEMO_WORK="$work"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
/opt/venv/bin/python -W ignore "$here/demo.py"
''')
    (d / "meta.json").write_text(json.dumps({"property": property, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")


if __name__ == "__main__":
    for spec in sys.argv[1:]:
        ns = {"make": make}
        exec(compile(Path(spec).read_text(), spec, "exec"), ns)
