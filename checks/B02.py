"""B02: a benchmark run is settled by its configuration and data; a sweep is its single runs, soundly summed up."""
import copy
import json
import pickle
import random
import shutil
from pathlib import Path

import numpy as np
import yaml

from vf import benchgen as bg
from vf import benchprobe as bp
from vf.core import Module, short
from vf.xproc import fresh_process

M = Module(
    "B02",
    rule="Whole experiments (probe and real methods, all data kinds) are run again: with the process's generators disturbed, warm and cold caches, after other "
    "experiments, from the recorded configuration, in another process, and as one seed of a sweep. Reported metrics, identities and a digest of everything a probe "
    "method was handed are compared; aggregates are recomputed. Non-trivial: experiments that succeeded and whose answer changes with the seed.",
    preload=["bench.main", "modssc.preprocess", "modssc.views", "modssc.graph", "torch", "sklearn"],
)


def stir(n):
    import torch

    random.seed(n)
    np.random.seed(n % 2**32)
    torch.manual_seed(n)


def go(c, cfg, ds, root, log, name="cfg.yaml"):
    stir(c.py.randrange(10**6))
    log.clear()
    code, new = bg.run(cfg, ds, root, name=name)
    return bg.outcome(code, new, log), new


def compare(c, a, b, what, keys=None):
    for k in keys or sorted(set(a) | set(b)):
        if k == "error" and a.get(k) and b.get(k):
            continue
        c.check(bg.same(a.get(k), b.get(k)), f"{what}: {k}", lambda k=k: f"{what}: {k} {short(a.get(k))} became {short(b.get(k))}")


RESULT = ["code", "status", "metrics", "handed", "seeds", "split", "pre", "graph", "data"]


@M.scenario(quick=70, thorough=1500)
def run_again(c):
    with bg.sandbox(c) as root, bp.registered() as log:
        kind, w, ds, cfg = bg.experiment(c, root)
        first, new = go(c, cfg, ds, root, log)
        key = (kind, cfg["method"]["id"], w["kind"], w["labels"])
        c.count("first_" + str(first.get("status")))
        how = c.py.sample(["warm", "cold", "off", "recorded", "others", "caches"], 2)
        for h in how:
            cfg2, keys = copy.deepcopy(cfg), None
            if h == "cold":
                for d in ("pre", "gr", "ds", "cache"):
                    shutil.rmtree(root / d, ignore_errors=True)
            if h == "off":
                cfg2["preprocess"]["cache"] = not cfg2["preprocess"]["cache"]
                if "graph" in cfg2:
                    cfg2["graph"]["cache"] = not cfg2["graph"]["cache"]
                keys = RESULT
            if h == "caches":
                cfg2["preprocess"]["cache_dir"], cfg2["dataset"]["cache_dir"] = str(root / "pre2"), str(root / "ds2")
                keys = RESULT
            if h == "recorded" and new and (new[0] / "config.yaml").exists():
                cfg2 = yaml.safe_load((new[0] / "config.yaml").read_text())
                keys = RESULT
            if h == "others":
                k2, w2, ds2, other = bg.experiment(c, root)
                other["dataset"]["cache_dir"] = str(root / "ds_other")
                go(c, other, ds2, root, log)
            again, _ = go(c, cfg2, ds, root, log)
            compare(c, first, again, "rerun " + h, keys)
            c.count("reruns_" + h)
        if first.get("status") == "success":
            c.nontrivial(key)


@M.scenario(quick=12, thorough=150)
def another_process(c):
    with bg.sandbox(c) as root, bp.registered() as log:
        kind, w, ds, cfg = bg.experiment(c, root)
        here, _ = go(c, cfg, ds, root, log)
        (root / "ds.pkl").write_bytes(pickle.dumps(ds))
        there = fresh_process("vf.benchgen", "remote", {"root": str(root), "ds": str(root / "ds.pkl"), "cfg": cfg})
        compare(c, here, there, "another process", [k for k in sorted(set(here) | set(there))])
        if here.get("status") == "success":
            c.nontrivial((kind, cfg["method"]["id"], w["kind"]))
        c.count("fresh_processes")


SECTIONS = ("sampling", "preprocess", "views", "graph", "augmentation")


@M.scenario(quick=40, thorough=900)
def stage_seeds(c):
    """Every stage without a seed of its own draws from the run seed; a stage's own seed moves that stage alone."""
    with bg.sandbox(c) as root, bp.registered() as log:
        kind, w, ds, cfg = bg.experiment(c, root, kind=c.pick(["probe", "tprobe", "graph"]))
        a, _ = go(c, cfg, ds, root, log)
        if a.get("status") != "success":
            return c.count("refused")
        fit_a = [e for e in log if e["ev"] == "fit"][0]
        for s, v in a["seeds"].items():
            if v is not None:
                own = cfg[s].get("seed")
                c.check(v == (own if own is not None else bg.derive(cfg["run"]["seed"], s)), "stage seed", f"{s}: {v}")
        c.check(fit_a["seed"] == bg.derive(cfg["run"]["seed"], "method"), "method seed", str(fit_a["seed"]))
        cfg2 = copy.deepcopy(cfg)
        cfg2["run"]["seed"] += 1 + c.py.randrange(50)
        for s in SECTIONS:
            if s in cfg2 and a["seeds"].get(s) is not None:
                cfg2[s]["seed"] = a["seeds"][s]
        b, _ = go(c, cfg2, ds, root, log)
        fit_b = [e for e in log if e["ev"] == "fit"][0]
        c.check(fit_b["seed"] == bg.derive(cfg2["run"]["seed"], "method"), "method seed after change", str(fit_b["seed"]))
        compare(c, a, b, "run seed changed, stage seeds pinned", ["seeds", "split", "pre", "graph", "data"])
        for k in fit_a:
            if k not in ("seed", "device", "spec"):
                c.check(bg.same(json.dumps(fit_a[k], default=lambda o: o.tolist() if hasattr(o, "tolist") else repr(o)),
                                json.dumps(fit_b[k], default=lambda o: o.tolist() if hasattr(o, "tolist") else repr(o))),
                        "pinned stages", f"{k} handed to the method changed with the run seed although every stage's seed is pinned")
        c.nontrivial((kind, w["kind"], tuple(sorted(a["seeds"]))))


def own_stats(vals):
    v = [float(x) for x in vals]
    m = sum(v) / len(v)
    return {"count": len(v), "mean": m, "std": (sum((x - m) ** 2 for x in v) / len(v)) ** 0.5, "min": min(v), "max": max(v), "values": v}


@M.scenario(quick=40, thorough=900)
def sweep(c):
    with bg.sandbox(c) as root, bp.registered() as log:
        kind, w, ds, cfg = bg.experiment(c, root, kind=c.pick(["probe", "probe", "tprobe", "classic", "trans", "graph"]))
        n = c.py.randint(2, 4)
        num = None
        if c.chance(0.4):
            num = n
            seeds = [cfg["run"]["seed"] + i for i in range(n)]
            if c.chance(0.4):
                cfg["run"]["seeds"] = [3, 1]
        else:
            seeds = c.py.sample(range(1000), n)
            cfg["run"]["seeds"] = seeds
        if kind in ("probe", "classic") and c.chance(0.3):
            cfg["search"] = {"enabled": False, "kind": "random", "seed": 5, "n_trials": 2, "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"},
                             "space": {"method": {"params": {"a": [1, 2]}}}}
        if kind in ("probe", "tprobe") and c.chance(0.35):
            cfg["search"] = {"enabled": True, "kind": "random", "seed": 5, "n_trials": 2, "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"},
                             "space": {"method": {"params": {"b": {"dist": "uniform", "low": 0.0, "high": 1.0}}}}}
        bad = set(c.py.sample(seeds, c.py.randint(1, n))) if kind in ("probe", "tprobe", "graph") and c.chance(0.5) else set()
        cfg["run"]["fail_fast"] = c.chance(0.3)
        kept = copy.deepcopy(cfg)
        mseed = {bg.derive(s, "method") for s in bad}
        bp.FAIL["when"] = lambda spec, seed: seed in mseed
        stir(c.py.randrange(10**6))
        log.clear()
        code, new = bg.run(cfg, ds, root, num_runs=num)
        handed = [e for e in log if e["ev"] == "fit"]
        c.check(cfg == kept, "sweep changed the configuration", "")
        c.check(len(new) == 1, "sweep folder", f"{[p.name for p in new]}")
        top = new[0]
        c.check(top.name.startswith(cfg["run"]["name"] + "-sweep-"), "sweep folder name", top.name)
        reps = {}
        for d in sorted(top.glob("*")):
            if d.is_dir():
                r = bg.report(d)
                c.check(r["run"]["seed"] not in reps, "sweep one run per seed", f"two runs of seed {r['run']['seed']}")
                reps[r["run"]["seed"]] = (d, r)
        # each run, alone
        singles = {}
        stopped = False
        for s in seeds:
            one = copy.deepcopy(cfg)
            one["run"].pop("seeds", None)
            one["run"].update(seed=s, name=f"{cfg['run']['name']}-seed{s}", output_dir=str(root / "single"))
            for sec in (*SECTIONS, "search"):
                if sec in one:
                    one[sec]["seed"] = s
            o, nd = go(c, one, ds, root, log)
            singles[s] = (o, nd, [e for e in log if e["ev"] == "fit" and e["seed"] == bg.derive(s, "method")])
            if stopped:
                c.check(s not in reps, "sweep goes on after a failure", f"seed {s} was run after a failed run with fail_fast")
                continue
            c.check(s in reps, "sweep runs every seed", f"seed {s} has no run folder; {sorted(reps)}")
            d, r = reps[s]
            c.check(r["run"]["name"] == f"{cfg['run']['name']}-seed{s}", "sweep run name", r["run"]["name"])
            c.check(bg.same(r["metrics"], o.get("metrics")), "sweep run equals the single run", lambda: f"seed {s}: metrics {short(r['metrics'])}, alone {short(o.get('metrics'))}")
            c.check(r["run"]["status"] == o.get("status"), "sweep run status", f"{r['run']['status']} alone {o.get('status')}")
            c.check(bg.same(r["hpo"], o.get("hpo")), "sweep search", lambda: f"seed {s}: {short(r['hpo'])} alone {short(o.get('hpo'))}")
            rec = r["artifacts"]
            got = {x: rec[x].get("seed") for x in SECTIONS if x in rec}
            c.check(got == o.get("seeds"), "sweep stage seeds", f"seed {s}: {got}, alone {o.get('seeds')}")
            c.check(rec.get("sampling", {}).get("split_fingerprint") == o.get("split"), "sweep split", f"seed {s}")
            h = [e for e in handed if e["seed"] == bg.derive(s, "method")]
            if singles[s][2]:
                c.check(len(h) == 1 and json.dumps(bp.deep_np(h[0].get("y", h[0].get("y_l"))).tolist()) == json.dumps(bp.deep_np(singles[s][2][0].get("y", singles[s][2][0].get("y_l"))).tolist()),
                        "sweep labels", f"seed {s}: other labels than alone")
            if r["run"]["status"] != "success" and cfg["run"]["fail_fast"]:
                stopped = True
        failed = [s for s in reps if reps[s][1]["run"]["status"] != "success"]
        c.check((code != 0) == bool(failed), "sweep exit", lambda: f"exit {short(code)} with failed seeds {failed}")
        agg = top / "aggregate.json"
        if stopped:
            c.check(isinstance(code, Exception), "sweep fail_fast", short(code))
            c.check(not agg.exists() or json.loads(agg.read_text())["sweep"]["status"] != "success", "sweep aggregate after abort", "an aborted sweep is summed up as a success")
            return c.count("aborted_sweeps")
        a = json.loads(agg.read_text())
        judge_aggregate(c, a, cfg, seeds, reps, top)
        ok = [s for s in seeds if reps[s][1]["run"]["status"] == "success"]
        if len({json.dumps(reps[s][1]["metrics"]) for s in ok}) > 1:
            c.nontrivial((kind, cfg["method"]["id"], n, num is not None, bool(bad)))
        c.count("sweeps_" + a["sweep"]["status"])


def judge_aggregate(c, a, cfg, seeds, reps, top):
    ok = [s for s in seeds if reps[s][1]["run"]["status"] == "success"]
    sw = a["sweep"]
    want = {"base_name": cfg["run"]["name"], "requested_seeds": seeds, "requested_run_count": len(seeds), "completed_run_count": len(seeds), "successful_run_count": len(ok),
            "failed_run_count": len(seeds) - len(ok), "status": "success" if len(ok) == len(seeds) else "partial_failure" if ok else "failed"}
    for k, v in want.items():
        c.check(sw[k] == v, "aggregate " + k, lambda k=k, v=v: f"{k}: {sw[k]} expected {v}")
    c.check([r["seed"] for r in a["runs"]] == seeds, "aggregate runs", str([r["seed"] for r in a["runs"]]))
    for r in a["runs"]:
        d, rep = reps[r["seed"]]
        c.check(Path(r["run_json"]).resolve() == (d / "run.json").resolve() and r["status"] == rep["run"]["status"] and bg.same(r["metrics"], rep["metrics"])
                and r["run_id"] == rep["run"]["run_id"] and r["error"] == rep["error"], "aggregate run entry", lambda r=r: f"{short(r)}")
    if not ok:
        c.check(a["metrics"] == {}, "aggregate of nothing", short(a["metrics"]))
        return
    first = reps[ok[0]][1]["metrics"]
    c.check(set(a["metrics"]) == set(first), "aggregate splits", str(sorted(a["metrics"])))
    for s in first:
        for m in first[s]:
            want = own_stats([reps[x][1]["metrics"][s][m] for x in ok])
            got = a["metrics"][s][m]
            for k, v in want.items():
                fine = bg.same(got[k], v) if k in ("count", "values") else (np.isnan(v) or k in ("min", "max") and np.isnan(want["values"]).any() or abs(got[k] - v) < 1e-9)
                c.check(fine, "aggregate metric " + k, lambda s=s, m=m, k=k, v=v, got=got: f"{s}/{m} {k}: {got[k]} expected {v}")
            c.count("aggregated_metrics")
