"""B05: a run's report tells what happened: success exactly when everything configured was computed, failures recorded, nothing overwritten."""
import copy
import hashlib
import json
import os
import subprocess
import sys
from pathlib import Path

import yaml

from vf import benchgen as bg
from vf import benchprobe as bp
from vf.core import Module, short

M = Module(
    "B05",
    rule="Runs are made to fail at every stage (data source, split, preprocessing, views, graph, augmentation, fit, prediction, search, writing the report) and to succeed, "
    "repeated into the same output folder within one second, and started through the command line. Exit codes, exceptions, run.json, error.txt, config.yaml and "
    "the bytes of earlier runs are judged. Non-trivial: distinct (stage, outcome, fail_fast) seen.",
    preload=["bench.main", "modssc.preprocess", "modssc.views", "modssc.graph", "torch", "sklearn"],
)
STAGES = {
    "data": "bench.orchestrators.dataset:load", "split": "bench.orchestrators.sampling:run", "preprocess": "bench.orchestrators.preprocess:run", "views": "bench.orchestrators.views:run",
    "graph": "bench.orchestrators.graph:build", "augmentation": "bench.orchestrators.augmentation:run", "fit": None, "predict": None, "search": None, "score": "bench.orchestrators.evaluation:compute_metrics",
}


class Oops(RuntimeError):
    pass


class hit:
    """Make one stage's function raise at its k-th call."""

    def __init__(self, target, exc, at=1):
        mod, name = target.split(":")
        __import__(mod)
        self.m, self.name, self.exc, self.at, self.n = sys.modules[mod], name, exc, at, 0

    def __enter__(self):
        self.old = getattr(self.m, self.name, None)
        if self.old is None:  # the stage has another name now: nothing to hook
            return self

        def f(*a, **k):
            self.n += 1
            if self.n == self.at:
                raise self.exc
            return self.old(*a, **k)

        setattr(self.m, self.name, f)
        return self

    def __exit__(self, *a):
        if self.old is not None:
            setattr(self.m, self.name, self.old)


def digest(d):
    h = hashlib.sha256()
    for p in sorted(Path(d).rglob("*")):
        h.update(str(p.relative_to(d)).encode() + (p.read_bytes() if p.is_file() else b"/"))
    return h.hexdigest()


def config(c, root, stage=None):
    kind = "graph" if stage == "graph" else "views" if stage == "views" else "aug" if stage == "augmentation" else c.pick(["plain", "plain", "graph", "aug", "views"])
    w, ds = bg.world(c, kinds=("tab",), labels=("int", "str") if kind != "graph" else ("int",))
    cfg = bg.base(c, root, w, kind="transductive" if kind == "graph" else "inductive", params={"a": 1}, graph=kind == "graph", plain=kind == "views")
    if kind == "aug":
        cfg["augmentation"] = bg.aug_plans(c, w, 2)
    if kind == "views":
        cfg["views"] = {"plan": {"views": [{"name": "v", "columns": {"mode": "random", "fraction": 0.5}}, {"name": "w", "columns": {"mode": "complement", "complement_of": "v"}}]}}
    if stage == "search" or (stage is None and c.chance(0.2)):
        cfg["search"] = {"enabled": True, "kind": "grid", "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"},
                         "space": {"method": {"params": {"b": [1.0, 2.0, 3.0]}}}}
    return w, ds, cfg


def judge_failure(c, what, code, new, cfg, exc_text, in_dir=True):
    ff = cfg["run"]["fail_fast"]
    c.check(isinstance(code, Exception) if ff else code == 1, what + " outcome", lambda: f"fail_fast={ff}: {short(code)}")
    c.check(len(new) == 1, what + " one run folder", f"{len(new)}")
    d = new[0]
    rep = bg.report(d)
    c.check(rep["run"]["status"] == "failed" and rep["metrics"] is None, what + " reported as failed", lambda: f"{rep['run']['status']} {short(rep['metrics'])}")
    c.check(rep["error"] is not None and exc_text in rep["error"] and rep["run"]["error_code"], what + " error recorded", lambda: f"{rep['error']} {rep['run']['error_code']}")
    c.check((d / "error.txt").exists() and "Traceback" in (d / "error.txt").read_text() and exc_text in (d / "error.txt").read_text(), what + " traceback recorded", "error.txt")
    conf = yaml.safe_load((d / "config.yaml").read_text())
    c.check(conf["run"] == cfg["run"] and conf["sampling"] == cfg["sampling"], what + " configuration recorded", short(conf["run"]))
    return rep


def judge_success(c, what, code, new, cfg):
    c.check(code == 0 and len(new) == 1, what + " outcome", lambda: short(code))
    d = new[0]
    rep = bg.report(d)
    c.check(rep["run"]["status"] == "success" and rep["error"] is None and rep["run"]["error_code"] is None, what + " report", short(rep["run"]))
    c.check(set(rep["metrics"]) == set(cfg["evaluation"]["report_splits"]) and all(set(v) == set(cfg["evaluation"]["metrics"]) for v in rep["metrics"].values()), what + " every configured metric", short(rep["metrics"]))
    c.check(not (d / "error.txt").exists(), what + " no error file", "error.txt beside a success")
    c.check((rep["hpo"] is not None) == ("search" in cfg), what + " search reported", short(rep["hpo"]))
    c.check(rep["run"]["name"] == cfg["run"]["name"] and rep["run"]["seed"] == cfg["run"]["seed"] and rep["run"]["run_id"] in d.name, what + " identity", short(rep["run"]))
    c.check(rep["run"]["started_at"] <= rep["run"]["finished_at"], what + " times", short(rep["run"]))
    return rep


@M.scenario(quick=110, thorough=2000)
def stages(c):
    """The run fails at one stage; the next run of the same configuration succeeds and is not coloured by the failure."""
    with bg.sandbox(c) as root, bp.registered() as log:
        stage = c.pick(sorted(STAGES))
        w, ds, cfg = config(c, root, stage)
        cfg["run"]["fail_fast"] = c.chance(0.4)
        good, _ = None, None
        code, new = bg.run(cfg, ds, root)
        if code != 0:
            judge_failure(c, "refused", code, new, cfg, "")
            return c.count("refused")
        good = judge_success(c, "before", code, new, cfg)
        keep = digest(new[0])
        old = new[0]
        exc = c.pick([Oops("vf oops"), ValueError("vf oops"), OSError(28, "vf oops"), MemoryError("vf oops"), KeyError("vf oops"), AssertionError("vf oops")])
        log.clear()
        if stage in ("fit", "search"):
            n = {"n": 0}
            at = 1 if stage == "fit" else c.py.randint(1, 4)

            def when(spec, seed):
                n["n"] += 1
                if n["n"] == at:
                    raise exc
                return False
            bp.FAIL["when"] = when
            code, new = bg.run(cfg, ds, root)
            bp.FAIL["when"] = None
        elif stage == "predict":
            bad = copy.deepcopy(cfg)
            bad["method"]["params"]["fail"] = "predict"
            code, new = bg.run(bad, ds, root)
            exc = "told to fail"
        else:
            with hit(STAGES[stage], exc) as h:
                code, new = bg.run(cfg, ds, root)
            if not h.n:
                return c.count("stage_not_reached_" + stage)
        judge_failure(c, "failed at " + stage, code, new, cfg, "vf oops" if not isinstance(exc, str) else exc)
        if stage in ("data", "split", "preprocess", "views", "graph", "augmentation"):
            c.check(not log, "nothing fitted after a failed stage", f"{stage}: {len(log)} events")
        code, new = bg.run(cfg, ds, root)
        after = judge_success(c, "after", code, new, cfg)
        c.check(bg.same(after["metrics"], good["metrics"]), "failure leaves later runs alone", lambda: f"{good['metrics']} then {after['metrics']}")
        c.check(digest(old) == keep, "earlier run folder kept", "a later run changed an earlier run's folder")
        c.nontrivial((stage, type(exc).__name__, cfg["run"]["fail_fast"], "search" in cfg))


@M.scenario(quick=25, thorough=400)
def folders(c):
    """Runs into one output folder within the same second: each in a folder of its own, none overwritten, foreign files kept."""
    with bg.sandbox(c) as root, bp.registered() as log:
        w, ds, cfg = config(c, root)
        out = Path(cfg["run"]["output_dir"])
        out.mkdir()
        (out / "notes.txt").write_text("mine")
        import bench.context as ctx_mod
        import bench.main as main_mod

        seen, n = {}, c.py.randint(3, 6)

        import datetime as dt

        class Frozen(dt.datetime):
            @classmethod
            def now(cls, tz=None):
                return dt.datetime(2026, 1, 2, 3, 4, 5, tzinfo=tz)

        mods = [m for m in (ctx_mod, main_mod) if getattr(m, "datetime", None) is dt.datetime]
        for m in mods:
            m.datetime = Frozen
        try:
            sweep = c.chance(0.3)
            for i in range(n):
                one = copy.deepcopy(cfg)
                if sweep:
                    one["run"]["seeds"] = [1, 2]
                if c.chance(0.3):
                    one["method"]["params"]["a"] = c.pick([1, 2])
                if c.chance(0.2):
                    one["method"]["params"]["fail"] = c.pick(["fit", "predict"])
                code, new = bg.run(one, ds, root, name=f"c{i}.yaml")
                if not mods and len(new) != 1:
                    return c.count("clock_not_held")
                c.check(len(new) == 1, "a folder of its own", lambda: f"run {i}: {[p.name for p in new]}")
                for d, h in seen.items():
                    c.check(digest(d) == h, "earlier folder kept", f"run {i} changed {d.name}")
                seen[new[0]] = digest(new[0])
                c.count("runs")
        finally:
            for m in mods:
                m.datetime = dt.datetime
        c.check((out / "notes.txt").read_text() == "mine", "foreign files kept", "notes.txt")
        c.check(len(seen) == n, "folders", f"{len(seen)} of {n}")
        c.nontrivial((n, sweep, "search" in cfg, "graph" in cfg))


@M.scenario(quick=30, thorough=500)
def report_lost(c):
    """When the report itself cannot be written or the run is interrupted, the run does not look like a success."""
    with bg.sandbox(c) as root, bp.registered() as log:
        w, ds, cfg = config(c, root)
        cfg["run"]["fail_fast"] = c.chance(0.5)
        from bench.main import run_experiment

        how = c.pick(["write", "write", "interrupt", "exit"])
        if c.chance(0.4):
            cfg["run"]["seeds"] = [1, 2, 3]
        exc = {"write": OSError(28, "No space left on device"), "interrupt": KeyboardInterrupt(), "exit": SystemExit(3)}[how]
        target = "bench.context:write_json" if how == "write" else c.pick(["bench.orchestrators.preprocess:run", "bench.orchestrators.evaluation:compute_metrics", "bench.orchestrators.sampling:run"])
        with bg.source(ds), hit(target, exc, at=c.py.randint(1, 3) if "seeds" in cfg["run"] else 1) as h:
            try:
                code = run_experiment(bg.write(cfg, root))
            except BaseException as e:  # noqa: BLE001
                code = e
        if not h.n or h.n < h.at:
            return c.count("not_reached")
        new = [p.parent for p in sorted((root / "out").rglob("run.json"))]
        for d in new:
            if "seeds" not in cfg["run"] and (d / "run.json").exists():
                st = bg.report(d)["run"]["status"]
                c.check(st != "success" or code == 0, "no success without a report", f"{how}: {st}")
        c.check(code != 0, "outcome of an interrupted run", lambda: f"{how}: {short(code)}")
        c.nontrivial((how, target, cfg["run"]["fail_fast"], "seeds" in cfg["run"]))


@M.scenario(quick=6, thorough=60)
def command(c):
    """python -m bench.main: exit status 0 exactly for a success."""
    with bg.sandbox(c) as root:
        n = c.py.randint(20, 40)
        bad = c.pick([None, None, "params", "yaml", "metric", "missing"])
        cfg = {"run": {"name": "cmd", "seed": c.py.randrange(99), "output_dir": str(root / "out"), "fail_fast": c.chance(0.5)}, "dataset": {"id": "toy", "cache_dir": str(root / "ds")},
               "sampling": {"plan": {"split": {"kind": "holdout", "test_fraction": 0.2, "val_fraction": 0.2, "stratify": True, "shuffle": True},
                                     "labeling": {"mode": "fraction", "value": 0.4, "strategy": "balanced", "min_per_class": 1}, "imbalance": {"kind": "none"}, "policy": {}}},
               "preprocess": {"cache": False, "plan": {"output_key": "features.X", "steps": [{"id": "core.ensure_2d"}, {"id": "core.to_numpy"}]}},
               "method": {"kind": "inductive", "id": "pseudo_label", "params": {"classifier_id": "knn", "classifier_params": {"k": 3}, "max_iter": n % 3 + 1}, "device": {"device": "cpu"}},
               "evaluation": {"report_splits": ["val", "test"], "metrics": ["accuracy"]}}
        if bad == "params":
            cfg["method"]["params"]["no_such"] = 1
        if bad == "metric":
            cfg["evaluation"]["metrics"] = ["speed"]
        if bad == "yaml":
            cfg["runn"] = {}
        p = bg.write(cfg, root)
        if bad == "missing":
            p = root / "nowhere.yaml"
        seeds = c.pick([None, None, 2])
        env = dict(os.environ, PYTHONPATH=os.environ.get("PYTHONPATH", ""))
        r = subprocess.run([sys.executable, "-m", "bench.main", "--config", str(p)] + (["--num-runs", str(seeds)] if seeds else []), cwd=root, env=env, capture_output=True, text=True, timeout=200)
        reps = [bg.report(x.parent) for x in sorted((root / "out").rglob("run.json"))]
        ok = bool(reps) and all(x["run"]["status"] == "success" for x in reps)
        c.check((r.returncode == 0) == ok and ok == (bad is None), "exit status", lambda: f"{bad}: exit {r.returncode}, {[x['run']['status'] for x in reps]} {r.stderr[-300:]}")
        c.check(bad is not None or len(reps) == (seeds or 1), "runs made", f"{len(reps)}")
        if bad is None and seeds:
            c.check([x["run"]["seed"] for x in reps] == [cfg["run"]["seed"], cfg["run"]["seed"] + 1], "seeds of a run-count sweep", str([x["run"]["seed"] for x in reps]))
        c.count("processes")
        c.nontrivial((bad, seeds, cfg["run"]["fail_fast"]))
