"""B03: a search scores exactly the configured trials on the prepared data and the final run is the best trial's configuration."""
import copy
import itertools
import json
import math

import numpy as np
import yaml

from vf import benchgen as bg
from vf import benchprobe as bp
from vf.core import Module, short

M = Module(
    "B03",
    rule="Whole experiments with a search section run with probe methods that record every fit and prediction, and with real methods. Trials, parameters, seeds, "
    "the data handed to each fit, each trial's objective (recomputed from the recorded predictions' rule and the true labels), the choice of the best, the "
    "final run's parameters and the recorded configuration are judged. Non-trivial: searches whose trials' scores differ.",
    preload=["bench.main", "modssc.preprocess", "modssc.views", "modssc.graph", "torch", "sklearn"],
)


def space(c, kind):
    """(search.space, {dotted path: leaf}) over the probe's parameters."""
    leaf = {
        "a": lambda: c.pick([[1, 2, 3], c.py.sample(range(20), c.py.randint(1, 3)), {"dist": "choice", "values": ["x", "y"]}]),
        "b": lambda: c.pick([[0.5, 1.5], [True, False]]),
        "batch_size": lambda: c.py.sample([4, 16, 64, 5000], c.py.randint(1, 3)),
        "sup_batch_size": lambda: c.py.sample([2, 8, 640], c.py.randint(1, 2)),
        "extra.z": lambda: c.pick([[0, 1], [[1, 2], [3]], [{"k": 1}, {"k": 2}]]),
        "extra.w.v": lambda: [None, 3],
        "classifier_params.batch_size": lambda: c.py.sample([3, 700, 30], c.py.randint(1, 2)),
    }
    if kind == "random":
        leaf["a"] = lambda: c.pick([{"dist": "uniform", "low": -1.0, "high": 2.5}, {"dist": "loguniform", "low": 1e-4, "high": 10.0}, {"dist": "randint", "low": 0, "high": 4}, [1, 2]])
        leaf["batch_size"] = lambda: c.pick([{"dist": "randint", "low": 1, "high": 300}, [4, 5000]])
    names = c.py.sample(sorted(leaf), c.py.randint(1, 4))
    leaves = {k: leaf[k]() for k in names}
    out = {}
    for k in names:
        d = out
        parts = ["method", "params"] + k.split(".")
        for p in parts[:-1]:
            d = d.setdefault(p, {})
        d[parts[-1]] = leaves[k]
    return out, leaves


def values(leaf):
    return leaf if isinstance(leaf, list) else leaf.get("values")


def setp(params, dotted, v):
    d = params
    parts = dotted.split(".")
    for p in parts[:-1]:
        if not isinstance(d.get(p), dict):
            d[p] = {}
        d = d[p]
    d[parts[-1]] = merge(d.get(parts[-1]), v)


def merge(old, new):
    if isinstance(old, dict) and isinstance(new, dict):
        return {**old, **{k: merge(old.get(k), v) for k, v in new.items()}}
    return copy.deepcopy(new)


PRESET = {"v100": (128, 64), "h100": (512, 256)}


def clamp(params, limits):
    if not limits:
        return params
    mb, sb = PRESET.get(limits.get("profile"), (None, None))
    mb, sb = limits.get("max_method_batch_size", mb), limits.get("max_method_sup_batch_size", sb)
    for d, k, lim in ((params, "batch_size", mb), (params, "sup_batch_size", sb), (params.get("classifier_params", {}), "batch_size", mb)):
        if lim is not None and k in d:
            d[k] = min(d[k], lim)
    return params


def fields(spec):
    return {k: getattr(spec, k) for k in ("a", "b", "batch_size", "sup_batch_size", "extra", "classifier_params")}


def expected_params(cfg, combo):
    p = copy.deepcopy(cfg["method"]["params"])
    for k, v in combo.items():
        setp(p, k, v)
    return clamp(p, cfg.get("limits"))


def with_defaults(p):
    d = {"a": 1, "b": 0.5, "batch_size": 1000, "sup_batch_size": 1000, "extra": {}, "classifier_params": {}}
    return {**d, **p}


def in_leaf(v, leaf):
    if isinstance(leaf, list) or leaf["dist"] == "choice":
        return any(type(v) is type(x) and v == x for x in values(leaf))
    if leaf["dist"] == "randint":
        return isinstance(v, int) and leaf["low"] <= v < leaf["high"]
    eps = 1e-12 * max(abs(leaf["low"]), abs(leaf["high"]))
    return isinstance(v, float) and leaf["low"] - eps <= v <= leaf["high"] + eps


def get(patch, dotted):
    d = patch["method"]["params"]
    for p in dotted.split("."):
        d = d[p]
    return d


def flat(d, pre=""):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and v:
            out.update(flat(v, pre + k + "."))
        else:
            out[pre + k] = v
    return out


def truth(cfg, st, log):
    """Function: (salt, k, split, metric) -> value, from the staged data and the rule of the probe."""
    trans = cfg["method"]["kind"] == "transductive"

    def of(fit, split, metric):
        idx, ref = st["idx"][split], st["refs"].get(split, "train")
        x = bp.deep_np(st["X"][ref])
        x = bp.to_np(x["x"] if isinstance(x, dict) else x)
        yt = bg.y1(bg.rows(st["y"][ref], idx))
        salt = bp.salt_of(fit["spec"], fit["seed"])
        if trans:
            y = bp.to_np(fit["y"])
            k = int(y[np.asarray(fit["masks"]["train_mask"], bool)].max()) + 1
            yp = bp.row_codes(np.asarray(fit["X"])[np.asarray(idx) + (len(st["X"]["train"]) if ref == "test" else 0)], k, salt) if len(idx) else yt
        else:
            cl = np.unique(bg.y1(fit["y_l"]))
            yp = cl[bp.row_codes(x[idx], len(cl), salt)] if len(idx) else yt
        return bg.metric(metric, yt, yp)

    return of


def same_data(a, b):
    for k in ("X_l", "y_l", "X_u", "X_u_w", "X_u_s", "X", "y", "masks", "edge_index", "edge_weight", "views"):
        if k in a and not eqd(a[k], b[k]):
            return k
    return None


def eqd(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(eqd(a[k], b[k]) for k in a)
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tolist() == b.tolist()


def search_section(c, kind, sp, repeats=None):
    return {"enabled": True, "kind": kind, **({"seed": c.py.randrange(10**6), "n_trials": c.py.randint(1, 7)} if kind == "random" else {}),
            **({"repeats": repeats or c.py.randint(1, 3)} if repeats or c.chance(0.7) else {}),
            "objective": {"split": c.pick(["val", "val", "train", "test"]), "metric": c.pick(["accuracy", "macro_f1", "balanced_accuracy"]),
                          "direction": c.pick(["maximize", "maximize", "minimize"]), "aggregate": "mean"}, "space": sp}


def trials_of(d):
    return [json.loads(x) for x in (d / "hpo" / "trials.jsonl").read_text().splitlines()]


def best_of(vals, direction):
    best = None
    for i, v in enumerate(vals):
        s = -math.inf if math.isnan(v) else (v if direction == "maximize" else -v)
        if best is None or s > best[0]:
            best = (s, i)
    return best[1]


def judge_summary(c, what, cfg, hpo, trials):
    se = cfg["search"]
    vals = [t["objective"]["value"] for t in trials]
    b = best_of(vals, se["objective"]["direction"])
    c.check([t["index"] for t in trials] == list(range(len(trials))), what + " trial numbers", str([t["index"] for t in trials]))
    c.check(hpo["n_trials"] == len(trials) and hpo["repeats"] == se.get("repeats", 1) and hpo["kind"] == se["kind"], what + " search summary", short(hpo))
    c.check(hpo["best_index"] == b, what + " best trial", lambda: f"best {hpo['best_index']} of {vals} ({se['objective']['direction']}), expected {b}")
    c.check(bg.close(hpo["best_score"], vals[b]) and hpo["best_params"] == trials[b]["params"] and hpo["best_patch"] == trials[b]["patch"], what + " best trial's entry",
            lambda: f"{short(hpo)} vs {short(trials[b])}")
    c.check({k: hpo["objective"][k] for k in se["objective"]} == se["objective"], what + " objective", short(hpo["objective"]))
    return b


@M.scenario(quick=90, thorough=1600)
def search(c):
    """Probe methods: every trial's parameters, seeds, data, objective; the best; the final run."""
    with bg.sandbox(c) as root, bp.registered() as log:
        trans = c.chance(0.35)
        w, ds = bg.world(c, kinds=("tab", "tab", "text", "graph") if trans else ("tab", "tab", "text", "image", "graph"), labels=("int",) if trans else ("int", "gap", "str"))
        base = {"a": 7, "extra": {"z": 5, "q": 1}}
        if c.chance(0.6):
            base.update(batch_size=c.pick([8, 900]), classifier_params={"batch_size": c.pick([6, 800]), "h": 1})
        cfg = bg.base(c, root, w, kind="transductive" if trans else "inductive", params=base)
        if not trans and w["kind"] in ("tab", "text") and c.chance(0.4):
            cfg["augmentation"] = bg.aug_plans(c, w, 2)
        if not trans and w["kind"] == "tab" and c.chance(0.35):
            cfg["views"] = copy.deepcopy(VIEWS)
        kind = c.pick(["grid", "grid", "random"])
        sp, leaves = space(c, kind)
        cfg["search"] = search_section(c, kind, sp)
        if c.chance(0.5):
            cfg["limits"] = c.pick([{"profile": "v100"}, {"profile": "h100"}, {"max_method_batch_size": 10}, {"max_method_sup_batch_size": 3}, {"profile": "v100", "max_method_batch_size": 50}])
        bg.seeds(c, cfg)
        try:
            st = bg.stage(cfg, ds, root)
        except Exception:  # noqa: BLE001
            return c.count("refused_by_library")
        if not len(st["idx"]["train_labeled"]):
            return c.count("no_labelled_rows")
        log.clear()
        code, new = bg.run(cfg, ds, root)
        c.check(code == 0 and len(new) == 1, "search runs", lambda: f"code {short(code)} {bg.report(new[0])['error'] if new else ''}")
        d, rep = new[0], bg.report(new[0])
        trials, hpo = trials_of(d), rep["hpo"]
        fits = [e for e in log if e["ev"] == "fit"]
        rpt = cfg["search"].get("repeats", 1)
        names = sorted(leaves)
        if kind == "grid":
            combos = [dict(zip(names, v)) for v in itertools.product(*[values(leaves[k]) for k in names])]
            c.check(len(trials) == len(combos), "grid size", f"{len(trials)} trials, the grid has {len(combos)} points")
            got = [json.dumps({k: get(t["patch"], k) for k in names}, sort_keys=True) for t in trials]
            want = [json.dumps(x, sort_keys=True) for x in combos]
            c.check(sorted(got) == sorted(want), "grid points", lambda: f"{short(got)} expected {short(want)}")
        else:
            c.check(len(trials) == cfg["search"]["n_trials"], "random trials", f"{len(trials)}")
        c.check(len(fits) == len(trials) * rpt + 1, "number of fits", f"{len(fits)} fits for {len(trials)} trials of {rpt} repeats and the final run")
        of, obj = truth(cfg, st, log), cfg["search"]["objective"]
        for i, t in enumerate(trials):
            combo = {k: get(t["patch"], k) for k in names}
            c.check(list(t["patch"]) == ["method"] and list(t["patch"]["method"]) == ["params"], "patch stays in method.params", short(t["patch"]))
            c.check(all(in_leaf(combo[k], leaves[k]) for k in names), "trial inside the space", lambda: f"{combo} of {leaves}")
            c.check(t["params"] == {k: v for k, v in flat(t["patch"]).items()}, "trial params", lambda: f"{t['params']} of patch {t['patch']}")
            want = with_defaults(expected_params(cfg, combo))
            vals = []
            for r in range(rpt):
                f = fits[i * rpt + r]
                c.check(fields(f["spec"]) == want, "trial parameters", lambda f=f: f"trial {i}: fitted with {fields(f['spec'])}, configured {want}")
                c.check(f["seed"] == bg.derive(cfg["run"]["seed"], f"hpo-trial-{i}-repeat-{r}"), "trial seed", f"trial {i} repeat {r}: {f['seed']}")
                diff = same_data(f, fits[-1])
                c.check(diff is None, "trial data", f"trial {i} repeat {r} was handed other {diff} than the final run")
                vals.append(of(f, obj["split"], obj["metric"]))
            o = t["objective"]
            c.check((o["split"], o["metric"]) == (obj["split"], obj["metric"]), "trial objective", short(o))
            c.check(len(o["values"]) == rpt and all(bg.close(x, y) for x, y in zip(o["values"], vals)), "trial scores",
                    lambda: f"trial {i}: recorded {o['values']}, own {vals}")
            c.check(bg.close(o["value"], float(np.mean(vals))), "trial mean", lambda: f"trial {i}: {o['value']} of {vals}")
            c.count("trials_judged")
        b = judge_summary(c, "search", cfg, hpo, trials)
        bestp = expected_params(cfg, {k: get(trials[b]["patch"], k) for k in names})
        c.check(fields(fits[-1]["spec"]) == with_defaults(bestp), "final parameters", lambda: f"final run fitted with {fields(fits[-1]['spec'])}, best trial {bestp}")
        c.check(fits[-1]["seed"] == bg.derive(cfg["run"]["seed"], "method"), "final seed", str(fits[-1]["seed"]))
        for s in cfg["evaluation"]["report_splits"]:
            for m in cfg["evaluation"]["metrics"]:
                c.check(bg.close(rep["metrics"][s][m], of(fits[-1], s, m)), "final metrics", f"{s}/{m}: {rep['metrics'][s][m]} own {of(fits[-1], s, m)}")
        conf = yaml.safe_load((d / "config.yaml").read_text())
        c.check(conf["method"]["params"] == bestp, "recorded configuration", lambda: f"config.yaml has {conf['method']['params']}, final run used {bestp}")
        for k in cfg:
            if k not in ("method", "limits", "graph", "dataset", "preprocess"):
                c.check(conf[k] == cfg[k], "recorded section", f"{k}: {short(conf[k])} configured {short(cfg[k])}")
        c.check(rep["run"]["run_id"] in d.name and (d / hpo["trials_path"]).resolve() == (d / "hpo" / "trials.jsonl").resolve(), "run folder", d.name)
        if len({json.dumps(t["objective"]["value"]) for t in trials}) > 1:
            c.nontrivial((kind, trans, w["kind"], len(trials), rpt, tuple(names), obj["direction"], "limits" in cfg))
        if len(trials) > 1 and sum(bg.close(t["objective"]["value"], trials[b]["objective"]["value"]) for t in trials) > 1:
            c.count("ties")


VIEWS = {"plan": {"views": [{"name": "v", "columns": {"mode": "random", "fraction": 0.5, "seed_offset": 1}}, {"name": "w", "columns": {"mode": "complement", "complement_of": "v"}}]}}
REAL = {"co_training": {"max_iter": [1, 2]}, "supervised": {"classifier_params": {"k": [1, 3, 5]}}, "pseudo_label": {"confidence_threshold": [0.5, 0.9], "max_iter": [1, 2]}, "self_training": {"max_iter": [1, 3]}}


@M.scenario(quick=24, thorough=250)
def real(c):
    """Real methods: the search's final run is the single run of the best trial's configuration; each trial scores as it would in another search."""
    with bg.sandbox(c) as root, bp.registered() as log:
        kind = c.pick(["classic", "trans", "deep"])
        w, ds = bg.world(c, kinds=("tab", "text"), labels=("int",), separable=1.0)
        if kind == "classic":
            mid = c.pick(sorted(REAL))
            p = {"classifier_id": "knn", "classifier_backend": c.pick(["numpy", "sklearn"]), "classifier_params": {"k": 3}}
            cfg = bg.base(c, root, w, method=mid, params=p, plain=mid == "co_training")
            sp = copy.deepcopy(REAL[mid])
            if mid == "co_training":
                cfg["views"] = copy.deepcopy(VIEWS)
        elif kind == "deep":
            mid = c.pick(["comatch", "fixmatch", "mean_teacher"])
            cfg = bg.base(c, root, w, method=mid, params={})
            cfg["method"] = bg.deep_method(c, mid)
            cfg["sampling"]["plan"]["labeling"] = {"mode": "per_class", "value": 3, "strategy": "balanced", "min_per_class": 1}
            cfg["augmentation"] = bg.aug_plans(c, w, 2)
            sp = {"batch_size": c.pick([[3, 4], [4, 5]])}
        else:
            mid, p, sp = c.pick([("label_propagation", {}, {"max_iter": [1, 20]}), ("label_spreading", {}, {"alpha": [0.1, 0.5, 0.9]}), ("gcn", {"max_epochs": 3, "hidden_dim": 4}, {"lr": [0.001, 0.5], "dropout": [0.0, 0.4]})])
            cfg = bg.base(c, root, w, kind="transductive", method=mid, params=p)
        bg.seeds(c, cfg)
        plain = copy.deepcopy(cfg)
        se = search_section(c, "grid", {"method": {"params": sp}})
        cfg["search"] = se
        code, new = bg.run(cfg, ds, root)
        if code != 0:
            fine = True  # some combination may be refused by the method itself
            for v in itertools.product(*[values(x) for x in flat(sp).values()]):
                one = copy.deepcopy(plain)
                for k, x in zip(flat(sp), v):
                    setp(one["method"]["params"], k, x)
                # a point has to run with the scores the search needs: an empty objective split scores nothing
                for key, val in (("report_splits", se["objective"]["split"]), ("metrics", se["objective"]["metric"])):
                    one["evaluation"][key] = sorted({*one["evaluation"][key], val})
                c1, n1 = bg.run(one, ds, root, name="plain.yaml")
                fine = fine and c1 == 0
            c.check(not fine, "a search over configurations that run", lambda: f"{mid}: every point of {sp} runs by itself, the search fails: {bg.report(new[0])['error'] if new else short(code)}")
            return c.count("refused")
        rep = bg.report(new[0])
        trials = trials_of(new[0])
        b = judge_summary(c, "real", cfg, rep["hpo"], trials)
        for k, v in flat(trials[b]["patch"]["method"]["params"]).items():
            setp(plain["method"]["params"], k, v)
        c2, n2 = bg.run(plain, ds, root, name="plain.yaml")
        c.check(c2 == 0, "single run of the best configuration", short(c2))
        r2 = bg.report(n2[0])
        c.check(bg.same(rep["metrics"], r2["metrics"]), "final run is the best configuration's single run", lambda: f"{rep['metrics']} vs {r2['metrics']} for {trials[b]['params']}")
        for s in ("sampling", "preprocess", "graph"):
            if s in r2["artifacts"]:
                c.check(bg.same(rep["artifacts"][s], r2["artifacts"][s]), "artifacts with and without search", lambda s=s: f"{s}: {short(rep['artifacts'][s])} vs {short(r2['artifacts'][s])}")
        # a grid without the other trials (and with the first repeats only) scores the first trial the same
        one = copy.deepcopy(cfg)
        first = flat(trials[0]["patch"]["method"]["params"])
        one["search"]["space"] = {"method": {"params": {}}}
        for k, v in first.items():
            setp(one["search"]["space"]["method"]["params"], k, [v])
        c3, n3 = bg.run(one, ds, root, name="one.yaml")
        t3 = trials_of(n3[0])
        c.check(c3 == 0 and len(t3) == 1 and bg.same(t3[0]["objective"], trials[0]["objective"]), "a trial is scored by itself", lambda: f"{t3[0]['objective']} alone, {trials[0]['objective']} among others")
        c.nontrivial((mid, w["kind"], b, len(trials)))


@M.scenario(quick=40, thorough=600)
def trouble(c):
    """A failing trial fails the run (no metrics, no silent best); a disabled search does not happen; a space outside method.params is refused unrun."""
    with bg.sandbox(c) as root, bp.registered() as log:
        w, ds = bg.world(c, kinds=("tab",), labels=("int",))
        cfg = bg.base(c, root, w, params={"a": 1})
        what = c.pick(["fail", "off", "bad", "bad"])
        sp, leaves = {"method": {"params": {"a": [1, 2, 3]}}}, None
        cfg["search"] = search_section(c, "grid", sp, repeats=2)
        try:
            st = bg.stage(cfg, ds, root)
        except Exception:  # noqa: BLE001
            return c.count("refused_by_library")
        if not len(st["idx"]["train_labeled"]):
            return c.count("no_labelled_rows")
        if what == "fail":
            victim = c.pick([1, 2, 3])
            bp.FAIL["when"] = lambda spec, seed: spec.a == victim
            cfg["run"]["fail_fast"] = c.chance(0.4)
            code, new = bg.run(cfg, ds, root)
            c.check(code == 1 if not cfg["run"]["fail_fast"] else isinstance(code, RuntimeError), "failing trial fails the run", f"fail_fast {cfg['run']['fail_fast']}: {short(code)}")
            rep = bg.report(new[0])
            c.check(rep["run"]["status"] == "failed" and not rep["metrics"] and "told to fail" in rep["error"], "failing trial reported", short(rep["error"]))
        elif what == "off":
            cfg["search"]["enabled"] = False
            code, new = bg.run(cfg, ds, root)
            fits = [e for e in log if e["ev"] == "fit"]
            rep = bg.report(new[0])
            c.check(code == 0 and len(fits) == 1 and fits[0]["spec"].a == 1 and rep["hpo"] is None, "disabled search", f"{len(fits)} fits")
        else:
            se = cfg["search"]
            bad = c.pick([
                lambda: se.update(space={"sampling": {"seed": [1, 2]}}), lambda: se.update(space={"method": {"id": ["a", "b"]}}),
                lambda: se.update(space={"method": {"params": {"a": []}}}), lambda: se.update(space={"method": {"params": [1, 2]}}),
                lambda: se.update(space={"method": {"params": {"a": {"dist": "nope"}}}}), lambda: se.update(space={"method": {"params": {"a": {"dist": "uniform", "low": 2, "high": 1}}}}),
                lambda: se.update(space={"method": {"params": {"a": 3}}}), lambda: se.update(kind="bayes"), lambda: se.update(repeats=0),
                lambda: se["objective"].update(split="dev"), lambda: se["objective"].update(metric="speed"), lambda: se["objective"].update(direction="up"),
                lambda: se["objective"].update(aggregate="median"), lambda: se.update(kind="random"), lambda: se.update(n_trials=0), lambda: se.update(budget=3),
                lambda: se.update(space={"method": {"params": {"a": [1]}, "device": {"device": ["cpu"]}}}),
                lambda: se.update(space={"method": {"params": {"a": {"dist": "choice", "values": [1], "step": 2}}}}),
            ])
            bad()
            code, new = bg.run(cfg, ds, root)
            c.check(isinstance(code, ValueError), "bad search section", lambda: f"{short(se)} gave {short(code)}")
            c.check(not log and not new, "bad search section runs nothing", f"{len(log)} events, {len(new)} run folders")
        c.nontrivial((what,))
