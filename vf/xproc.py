"""Re-run a case in a fresh interpreter with a different hash seed (cross-process determinism)."""
from __future__ import annotations

import json
import os
import subprocess
import sys
from pathlib import Path

from .core import Inconclusive


def fresh_process(module: str, func: str, payload, hashseed: str = "random", timeout: int = 300):
    """Call module.func(payload) in a new interpreter; returns its JSON-able result."""
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = hashseed
    code = (
        "import json,sys,importlib,warnings,logging;warnings.simplefilter('ignore');logging.disable(50);"
        f"m=importlib.import_module({module!r});"
        f"r=getattr(m,{func!r})(json.loads(sys.stdin.read()));"
        "sys.stdout.write('\\n@@'+json.dumps(r))"
    )
    p = subprocess.run([sys.executable, "-c", code], input=json.dumps(payload), capture_output=True, text=True, env=env, timeout=timeout)
    if p.returncode != 0 or "@@" not in p.stdout:
        raise Inconclusive(f"helper process failed rc={p.returncode}: {p.stderr[-1500:]}")
    return json.loads(p.stdout.rsplit("@@", 1)[1])
