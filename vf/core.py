"""Core of the runtime-monitoring framework: scenarios, contexts, verdicts.

A check module (checks/<ID>.py) registers *scenarios*.  A scenario drives the real code of
/repo once per case index, while monitors (oracles over the observed calls, values and
file-system events) watch the execution.  A monitor reports a violation with
``c.fail(mechanism, message)`` or ``c.check(cond, mechanism, message)``.
"""
from __future__ import annotations

import hashlib
import json
import os
import random
import shutil
import tempfile
import traceback
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable

import numpy as np

REPO = "/repo"
VERIF = str(Path(__file__).resolve().parent.parent)


class Violation(Exception):
    def __init__(self, mechanism: str, message: str):
        super().__init__(f"[{mechanism}] {message}")
        self.mechanism = mechanism
        self.message = message


class Inconclusive(Exception):
    """The harness could not judge (never a verdict about the code)."""


@dataclass
class Scenario:
    name: str
    fn: Callable[["Case"], None]
    quick: int
    thorough: int


@dataclass
class Module:
    prop: str
    level: str = "exploration"
    rule: str = ""
    assumptions: list[str] = field(default_factory=list)
    scenarios: list[Scenario] = field(default_factory=list)
    preload: list[str] = field(default_factory=list)
    workers: int = 8

    def scenario(self, quick: int, thorough: int | None = None, name: str | None = None):
        def deco(fn):
            self.scenarios.append(
                Scenario(name or fn.__name__, fn, quick, thorough if thorough is not None else quick * 10)
            )
            return fn

        return deco


def _h(*parts: Any) -> int:
    s = "|".join(str(p) for p in parts).encode()
    return int.from_bytes(hashlib.sha256(s).digest()[:8], "little")


class Case:
    """One execution of a scenario, with its own random streams and scratch folder."""

    def __init__(self, prop: str, scenario: str, index: int, seed: int, tier: str, stats: "Stats"):
        self.prop, self.scenario, self.index, self.seed, self.tier = prop, scenario, index, seed, tier
        base = _h(prop, scenario, index, seed)
        self.rng = np.random.default_rng(base)
        self.py = random.Random(base)
        self.stats = stats
        self._tmp: list[str] = []
        self.note: dict[str, Any] = {}

    # ---- verdicts
    def fail(self, mechanism: str, message: str = "") -> None:
        raise Violation(mechanism, message)

    def check(self, cond: Any, mechanism: str, message: Any = "") -> None:
        self.stats.count("oracle_checks")
        if not bool(cond):
            raise Violation(mechanism, message() if callable(message) else str(message))

    def raises(self, excs, fn, mechanism: str, message: str = ""):
        self.stats.count("oracle_checks")
        try:
            r = fn()
        except excs as e:
            return e
        except Exception as e:  # noqa: BLE001
            raise Violation(mechanism, f"{message}: raised {type(e).__name__}: {e}") from e
        raise Violation(mechanism, f"{message}: no error raised, returned {short(r)}")

    # ---- what was observed
    def count(self, name: str, n: int = 1) -> None:
        self.stats.count(name, n)

    def nontrivial(self, key: Any) -> None:
        self.stats.distinct.add(_h(self.scenario, json.dumps(key, sort_keys=True, default=str)) & ((1 << 60) - 1))

    def sample(self, obj: Any) -> None:
        self.stats.sample(self.scenario, obj)

    # ---- choices
    def pick(self, seq):
        return seq[self.py.randrange(len(seq))]

    def chance(self, p: float) -> bool:
        return self.py.random() < p

    def tmp(self) -> Path:
        d = tempfile.mkdtemp(prefix="c", dir=os.environ.get("TMPDIR"))
        self._tmp.append(d)
        return Path(d)

    def cleanup(self) -> None:
        for d in self._tmp:
            shutil.rmtree(d, ignore_errors=True)
        self._tmp.clear()


class Stats:
    def __init__(self) -> None:
        self.counts: dict[str, int] = {}
        self.distinct: set[int] = set()
        self.samples: dict[str, list[Any]] = {}
        self.evaluations = 0

    def count(self, name: str, n: int = 1) -> None:
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def sample(self, sc: str, obj: Any) -> None:
        lst = self.samples.setdefault(sc, [])
        if len(lst) < 2:
            lst.append(obj)


def short(x: Any, n: int = 300) -> str:
    try:
        s = repr(x)
    except Exception as e:  # noqa: BLE001
        s = f"<unreprable {type(x).__name__}: {e}>"
    return s if len(s) <= n else s[:n] + "..."


def in_repo_traceback(exc: BaseException) -> bool:
    """True when the exception surfaced from a call into the code under test."""
    tb = exc.__traceback__
    last_repo = last_harness = -1
    i = 0
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + "/src/") or fn.startswith(REPO + "/bench/"):
            last_repo = i
        elif fn.startswith(VERIF + "/"):
            last_harness = i
        tb = tb.tb_next
        i += 1
    return last_repo > last_harness


def innermost_repo_frame(exc: BaseException) -> str:
    out = "?"
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith(REPO + "/"):
            out = f"{os.path.relpath(fr.filename, REPO)}:{fr.name}"
    return out
