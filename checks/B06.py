"""B06: run.json states what the run did: seeds, fingerprints, counts, devices, data types, hashes and conversions are those of what was executed."""
import copy
import importlib.metadata as md
import platform

import numpy as np
import yaml

from vf import benchgen as bg
from vf import benchprobe as bp
from vf.core import Module, short

M = Module(
    "B06",
    rule="Experiments with probe methods of every kind are run; every identity, count, device, data type, hash and event in run.json is compared with what the probe was "
    "handed and with an own staging of the same configuration through the library. Identities are compared between runs whose configurations are equal, reordered or differ "
    "in one leaf. Non-trivial: distinct (kind, data kind, sections) of successful runs.",
    preload=["bench.main", "modssc.preprocess", "modssc.views", "modssc.graph", "torch", "sklearn"],
)
NORMALISING = {"core.cast_dtype", "core.cast_fp16", "core.to_torch", "core.to_numpy"}


def view_plan(c):
    pre = {"output_key": "features.X", "steps": c.pick([[{"id": "core.ensure_2d"}], [{"id": "core.ensure_2d"}, {"id": "core.cast_dtype", "params": {"dtype": "float64"}}]])}
    views = [{"name": "v", "columns": {"mode": "random", "fraction": 0.5}}, {"name": "w", "columns": {"mode": "complement", "complement_of": "v"}}]
    for v in views[: c.py.randint(0, 2)]:
        v["preprocess"] = copy.deepcopy(pre)
    return {"views": views}


def config(c, root):
    kind = c.pick(["probe", "probe", "tprobe", "graph", "views", "search", "aug"])
    if kind in ("tprobe", "graph"):
        w, ds = bg.world(c, kinds=("graph",) if kind == "graph" else ("tab", "graph"), labels=("int",))
        cfg = bg.base(c, root, w, kind="inductive" if kind == "graph" else "transductive", params={"a": 1})
    else:
        w, ds = bg.world(c, kinds=("tab",) if kind in ("views", "aug") else ("tab", "text", "image"), labels=("int", "gap"))
        cfg = bg.base(c, root, w, params={"a": c.py.randint(0, 5)}, plain=kind == "views", torch=kind == "probe" and c.chance(0.3))
    if kind == "views":
        cfg["views"] = {"plan": view_plan(c)}
    if kind == "aug":
        cfg["augmentation"] = bg.aug_plans(c, w, 2)
    if kind == "search":
        cfg["search"] = {"enabled": True, "kind": "grid", "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"},
                         "space": {"method": {"params": {"b": [1.0, 2.0, 3.0]}}}}
    steps = cfg["preprocess"]["plan"]["steps"]
    if w["kind"] == "tab" and not any(s["id"] == "core.to_torch" for s in steps):
        for sid in c.py.sample(["core.to_numpy", "core.cast_dtype", "core.cast_dtype", "core.cast_fp16"], c.py.randint(0, 4)):
            steps.append({"id": sid, **({"params": {"dtype": "float64"}} if sid == "core.cast_dtype" else {})})
        if c.chance(0.2):
            steps.append({"id": "core.to_torch"})
    if c.chance(0.3):
        cfg["limits"] = {"max_method_batch_size": c.pick([3, 5000])}
        cfg["method"]["params"]["batch_size"] = c.pick([2, 64])
    if c.chance(0.3):
        cfg["method"]["device"]["device"] = "auto"
    if c.chance(0.3):
        cfg["evaluation"]["split_for_model_selection"] = c.pick(["val", "train", "test"])
    bg.seeds(c, cfg, 0.3)
    return kind, w, ds, cfg


def described(a, torch):
    """dtype and shape the method was handed."""
    if a is None:
        return None
    a = a["x"] if isinstance(a, dict) else a
    return {"dtype": ("torch." if torch else "") + str(a.dtype), "shape": list(a.shape)}


def eq(c, got, want, what):
    c.check(bg.same(got, want), "reported " + what, lambda: f"run.json says {what} {short(got)}, what ran: {short(want)}")


@M.scenario(quick=150, thorough=2500)
def record(c):
    with bg.sandbox(c) as root, bp.registered() as log:
        kind, w, ds, cfg = config(c, root)
        given = copy.deepcopy(cfg)
        code, new = bg.run(cfg, ds, root)
        rep = bg.report(new[0])
        if rep["run"]["status"] != "success":
            eq(c, rep["resolution"]["device"]["requested"], given["method"]["device"]["device"], "requested device")
            return c.count("refused")
        fit = [e for e in log if e["ev"] == "fit"][-1]
        st = bg.stage(given, ds, root)
        art, res, conf = rep["artifacts"], rep["resolution"], yaml.safe_load((new[0] / "config.yaml").read_text())
        # the configuration that ran
        eq(c, rep["run"]["config_path"], str(root / "cfg.yaml"), "configuration path")
        eq(c, rep["run"]["benchmark_mode"], False, "benchmark mode")
        for k in ("a", "b", "batch_size"):
            if k in conf["method"]["params"]:
                eq(c, conf["method"]["params"][k], getattr(fit["spec"], k), "recorded parameter " + k)
            if k in rep["config"]["method"]["params"]:
                eq(c, rep["config"]["method"]["params"][k], getattr(fit["spec"], k), "configured parameter " + k)
        for s in ("sampling", "evaluation", "dataset", "preprocess", "graph", "views", "augmentation", "search"):
            if s in given:
                for k, v in given[s].items():
                    if k not in ("space", "objective"):
                        eq(c, rep["config"][s][k], v, f"configuration {s}.{k}")
            elif s in ("graph", "views", "augmentation", "search"):
                eq(c, rep["config"][s], None, "absent section " + s)
        # data and stages
        eq(c, art["dataset"]["id"], "toy", "data set")
        eq(c, art["dataset"]["fingerprint"], st["ds"].meta["dataset_fingerprint"], "data set fingerprint")
        eq(c, art["sampling"]["split_fingerprint"], st["res"].split_fingerprint, "split fingerprint")
        for s, v in st["seed"].items():
            if s in art and not (s == "graph" and "graph" not in given):
                eq(c, art[s]["seed"], v, s + " seed")
        stats = art["sampling"]["stats"]
        n_lab = (stats.get("train_labeled") or {}).get("n") if not st["res"].is_graph() else None
        if n_lab is not None:
            eq(c, n_lab, len(st["idx"]["train_labeled"]), "number of labelled rows")
        eq(c, art["preprocess"]["preprocess_fingerprint"], st["pre"].preprocess_fingerprint, "preprocessing fingerprint")
        eq(c, art["preprocess"]["plan_fingerprint"], st["pre"].plan.fingerprint, "plan fingerprint")
        eq(c, art["preprocess"]["fit_fingerprint"], st["pre"].dataset.meta.get("preprocess_fit_fingerprint"), "fit fingerprint")
        eq(c, "views" in art, "views" in given, "presence of views")
        eq(c, "augmentation" in art, "augmentation" in given and cfg["method"]["kind"] == "inductive", "presence of augmentation")
        if "views" in given:
            eq(c, art["views"]["n_views"], len(fit["views"]), "number of views")
        for s, sub in (("preprocess", "pre"), ("graph", "gr")):
            if s in given and given[s]["cache"]:
                c.check(any(p.is_file() for p in (root / sub).rglob("*")), "configured cache folder used", f"{s}: caching is on and {given[s]['cache_dir']} is empty")
                c.count("cache_folders_used")
        for p in (root / "cache").rglob("*") if "views" not in given else ():  # views have no cache setting of their own
            c.check(p.is_dir() or not ({"preprocess", "graph", "graphs"} & set(p.relative_to(root).parts)), "cached only where configured", str(p))
        # where and how it ran
        eq(c, art["method"]["id"], cfg["method"]["id"], "method")
        eq(c, art["method"]["kind"], cfg["method"]["kind"], "method kind")
        where = getattr(fit["device"], "device", fit["device"])
        where = str(getattr(where, "type", where))
        # "auto" handed on is the probe's to resolve; it runs on the CPU
        eq(c, res["device"], {"requested": given["method"]["device"]["device"], "resolved": "cpu" if where == "auto" else where}, "device")
        eq(c, art["method"]["device"]["resolved"], res["device"]["resolved"], "resolved device")
        asked = given["method"]["params"].get("backend")
        eq(c, res["backend"]["requested"]["method"], asked, "requested backend")
        eq(c, res["backend"]["requested"]["graph"], given["graph"]["spec"]["backend"] if "graph" in given else None, "requested graph backend")
        if "graph" in given:
            eq(c, res["backend"]["resolved"]["graph"], given["graph"]["spec"]["backend"], "graph backend")
        elif w["kind"] == "graph":
            eq(c, res["backend"]["resolved"]["graph"], "dataset", "graph source")
            eq(c, art["graph"]["source"], "dataset", "graph source")
        else:
            eq(c, "graph" in art, False, "graph without one")
        if cfg["method"]["kind"] == "inductive":
            d = res["dtype"]["resolved"]
            eq(c, d.get("X_l"), described(fit["X_l"], fit["torch"]), "labelled features' type")
            for i, k in enumerate(k for k in ("X_u", "X_u_w", "X_u_s") if fit[k] is not None):
                eq(c, d.get(k), described(fit[k], fit["torch_u"][i]), k + " type")
            for k in ("X_u_w", "X_u_s"):
                if fit[k] is None:
                    eq(c, d.get(k), None, k + " type")
            eq(c, (d.get("y_l") or {}).get("shape"), list(fit["y_l"].shape), "label shape")
            c.check(str(fit["y_l"].dtype) in str((d.get("y_l") or {}).get("dtype")), "reported label type", lambda: f"{d['y_l']} but {fit['y_l'].dtype}")
        else:
            d = res["dtype"]["resolved"]
            eq(c, (d.get("X") or {}).get("shape"), list(fit["X"].shape), "node features' shape")
            eq(c, (d.get("y_obs") or {}).get("shape"), list(fit["y"].shape), "observed labels' shape")
        eq(c, res["dtype"]["requested"]["method_device_dtype"], given["method"]["device"]["dtype"], "requested type")
        steps = [s["id"] for s in given["preprocess"]["plan"]["steps"]]
        for v in given.get("views", {}).get("plan", {}).get("views", []):
            steps += [s["id"] for s in v.get("preprocess", {}).get("steps", [])]
        eq(c, res["normalization"]["requested"]["preprocess_steps"], sorted({s for s in steps if "normalize" in s or s in NORMALISING}), "requested conversions")
        # protocol
        refs = st["refs"]
        use_test = refs.get("test", "train") == "test"
        for k, v in {"kind": cfg["method"]["kind"], "use_test_split": use_test, "report_splits": given["evaluation"]["report_splits"],
                     "split_for_model_selection": given["evaluation"].get("split_for_model_selection")}.items():
            eq(c, rep["protocol"][k], v, "protocol " + k)
        eq(c, res["splits"]["requested"], given["evaluation"]["report_splits"], "requested splits")
        eq(c, res["splits"]["resolved"]["use_test_split"], use_test, "use of the test split")
        eq(c, res["splits"]["resolved"]["report_splits"], given["evaluation"]["report_splits"], "resolved splits")
        ch = res["limits"]["changes"]
        lim = given.get("limits", {}).get("max_method_batch_size")
        asked = given["method"]["params"].get("batch_size")
        clamp = lim is not None and asked is not None and asked > lim
        eq(c, bool(ch), clamp, "limit changes")
        if clamp:
            c.check("batch_size" in str(ch) and str(lim) in str(ch), "reported limit change", lambda: short(ch))
        conv = [e["code"] for e in rep["fallback_events"]]
        eq(c, conv, ["E_BENCH_GRAPH_SAMPLING_CONVERTED"] if kind == "graph" and st["res"].is_graph() else [], "fallback events")
        # environment and identity
        v = rep["versions"]
        eq(c, [v["python"], v["numpy"], v["torch"], v["scikit_learn"]], [platform.python_version(), np.__version__, md.version("torch"), md.version("scikit-learn")], "versions")
        h = rep["hashes"]
        if clamp or "search" in given or "limits" not in given:
            eq(c, h["config_hash"] == h["effective_config_hash"], not clamp and "search" not in given, "hash of the effective configuration equal to the given one's")
        eq(c, (rep["hpo"] is not None), "search" in given, "presence of a search")
        c.check(new[0].name.startswith(f"{given['run']['name']}-{rep['run']['run_id']}-"), "folder carries the identity", new[0].name)
        c.nontrivial((kind, w["kind"], clamp, "graph" in given, given["method"]["device"]["device"], tuple(sorted(st["seed"]))))
        c.count("records")


def leaves(d, path=()):
    for k, v in d.items():
        if isinstance(v, dict) and v:
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


@M.scenario(quick=50, thorough=800)
def identity(c):
    """Equal configurations (whatever the order of their keys) share identities; another value anywhere gives another one."""
    with bg.sandbox(c) as root, bp.registered() as log:
        w, ds = bg.world(c, kinds=("tab",), labels=("int",))
        cfg = bg.base(c, root, w, params={"a": 1, "b": 0.5})
        cfg["evaluation"] = {"report_splits": ["train", "val"], "metrics": ["accuracy", "macro_f1"]}

        def ident(x):
            code, new = bg.run(x, ds, root)
            rep = bg.report(new[0])
            return rep["hashes"]["config_hash"], rep["hashes"]["effective_config_hash"], rep["run"]["run_id"]

        def shuffled(d):
            if not isinstance(d, dict):
                return copy.deepcopy(d)
            ks = list(d)
            c.py.shuffle(ks)
            return {k: shuffled(d[k]) for k in ks}

        a = ident(cfg)
        b = ident(shuffled(cfg))
        c.check(a == b, "equal configurations share identities", f"{a} and {b}")
        path, v = c.pick([(("run", "seed"), cfg["run"]["seed"]), (("method", "params", "a"), 1), (("method", "params", "b"), 0.5), (("sampling", "plan", "labeling", "value"), None),
                          (("sampling", "plan", "split", "val_fraction"), None), (("evaluation", "metrics"), None), (("evaluation", "report_splits"), None), (("preprocess", "seed"), None), (("sampling", "seed"), None)])
        other = copy.deepcopy(cfg)
        d = other
        for k in path[:-1]:
            d = d[k]
        d[path[-1]] = {"seed": cfg["run"]["seed"] + c.pick([1, 10, 100, 1000, 65536, 10**6]), "a": 2, "b": 0.25, "metrics": c.pick([["accuracy"], ["macro_f1", "accuracy"]]), "report_splits": c.pick([["val"], ["val", "train"]]),
                       "val_fraction": 0.15, "value": (d.get("value") or 0) + (1 if other["sampling"]["plan"]["labeling"]["mode"] != "fraction" else 0.05)}[path[-1]]
        o = ident(other)
        for i, what in enumerate(("configuration hash", "effective hash", "run identity")):
            c.check(o[i] != a[i], "different configurations share an identity", f"{what} unchanged after {'.'.join(path)} became {d[path[-1]]}")
        c.nontrivial((path, w["official"]))
