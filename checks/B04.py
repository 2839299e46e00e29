"""B04: a configuration is taken as written (placeholders, limits), or refused before anything is run; benchmark mode enforces its contract."""
import copy
import json
import os

import numpy as np
import yaml

from vf import benchgen as bg
from vf import benchprobe as bp
from vf.core import Module, short

M = Module(
    "B04",
    rule="Generated configurations are run unchanged, with one defect, with limits, with environment placeholders, and in benchmark mode with and without one breach. "
    "Probes record whether and with what anything was run; limits are recomputed. Non-trivial: distinct defects, limits and breaches that were judged.",
    preload=["bench.main", "modssc.preprocess", "modssc.views", "modssc.graph", "torch", "sklearn"],
)
PRESET = {"v100": (32, 128, 64, 512), "h100": (64, 512, 256, 1024)}
LKEYS = ("max_preprocess_batch_size", "max_method_batch_size", "max_method_sup_batch_size", "max_graph_chunk_size")


# ---- limits -----------------------------------------------------------------------------------------------------
def own_limits(raw, limits):
    raw = copy.deepcopy(raw)
    lim = dict(zip(LKEYS, PRESET.get((limits.get("profile") or "").lower(), (None,) * 4)))
    lim.update({k: v for k, v in limits.items() if k in LKEYS and v is not None})

    def cap(d, k, v, put=False):
        if v is None or not isinstance(d, dict):
            return
        if k in d and not isinstance(d[k], bool) and isinstance(d[k], (int, float)) and d[k] == int(d[k]):
            if d[k] > v:
                d[k] = v
        elif k not in d and put:
            d[k] = v

    for k in ("max_train_samples", "max_test_samples"):
        if limits.get(k) is not None:
            raw["dataset"].setdefault("options", {})
            cap(raw["dataset"]["options"], k, limits[k], put=True)
    plans = [raw["preprocess"]["plan"]] + [v["preprocess"] for v in raw.get("views", {}).get("plan", {}).get("views", []) if "preprocess" in v]
    for p in plans:
        for s in p["steps"]:
            cap(s.get("params"), "batch_size", lim["max_preprocess_batch_size"])
    m = raw["method"]
    cap(m.get("params"), "batch_size", lim["max_method_batch_size"])
    cap(m.get("params"), "sup_batch_size", lim["max_method_sup_batch_size"])
    cap(m.get("params", {}).get("classifier_params"), "batch_size", lim["max_method_batch_size"])
    cap(m.get("model", {}).get("classifier_params"), "batch_size", lim["max_method_batch_size"])
    if "graph" in raw:
        cap(raw["graph"].get("spec"), "chunk_size", lim["max_graph_chunk_size"], put=True)
    return raw


def some_limits(c):
    out = {}
    if c.chance(0.6):
        out["profile"] = c.pick(["v100", "h100", "V100"])
    for k in LKEYS:
        if c.chance(0.35):
            out[k] = c.pick([1, 7, 60, 200, 4000])
    for k in ("max_train_samples", "max_test_samples"):
        if c.chance(0.25):
            out[k] = c.pick([5, 50])
    return out or {"profile": "v100"}


SIZES = [0, 1, 2, 8, 31, 32, 33, 64, 127, 128, 129, 513, 2000, 10**9]


@M.scenario(quick=900, thorough=20000)
def clamp(c):
    """The limits applied to configurations of every shape (no run)."""
    from bench.limits import apply_limits
    from bench.schema import ExperimentConfig

    steps = lambda: {"steps": [{"id": "s", **({"params": {**({"batch_size": c.pick(SIZES)} if c.chance(0.6) else {}), "z": 10**6}} if c.chance(0.8) else {})} for _ in range(c.py.randint(1, 3))]}
    raw = {"run": {"name": "x"}, "dataset": {"id": "toy"}, "sampling": {"plan": {"split": {}}}, "preprocess": {"plan": steps()},
           "method": {"kind": "inductive", "id": "m", "params": {"lr": 1e9, "hidden": 9999}}, "evaluation": {"report_splits": ["val"], "metrics": ["accuracy"]}}
    p = raw["method"]["params"]
    for k in ("batch_size", "sup_batch_size"):
        if c.chance(0.6):
            p[k] = c.pick(SIZES + [64.0, None, True])
    if c.chance(0.4):
        p["classifier_params"] = {"n": 5000, **({"batch_size": c.pick(SIZES)} if c.chance(0.8) else {})}
    if c.chance(0.4):
        raw["method"]["model"] = {"classifier_id": "mlp", "classifier_params": {"batch_size": c.pick(SIZES), "width": 9999}}
    if c.chance(0.4):
        raw["graph"] = {"enabled": c.chance(0.7), "spec": {"k": 9999, **({"chunk_size": c.pick(SIZES)} if c.chance(0.6) else {})}}
    if c.chance(0.4):
        raw["views"] = {"plan": {"views": c.py.sample([{"name": "a", "preprocess": steps()}, {"name": "b"}, {"name": "d", "preprocess": steps()}], c.py.randint(1, 3))}}
    if c.chance(0.4):
        raw["dataset"]["options"] = {"max_train_samples": c.pick([3, 500]), "other": 1}
    limits = some_limits(c)
    raw["limits"] = limits
    cfg = ExperimentConfig.from_dict(raw)
    want = own_limits(raw, limits)
    before = copy.deepcopy(raw)
    got, changes, res = apply_limits(copy.deepcopy(raw), limits=cfg.limits)
    norm = lambda r: json.dumps({**r, "dataset": {**r["dataset"], "options": r["dataset"].get("options") or {}}}, sort_keys=True)
    c.check(norm(got) == norm(want), "limits applied", lambda: f"limits {limits}: {diff(norm(got), norm(want), json.loads(norm(got)), json.loads(norm(want)))}")
    c.check(bool(changes) == (norm(got) != norm(before)), "changes listed", lambda: f"{changes}")
    again, ch2, _ = apply_limits(copy.deepcopy(got), limits=cfg.limits)
    c.check(norm(again) == norm(got) and not ch2, "limits twice", str(ch2))
    none, ch0, _ = apply_limits(copy.deepcopy(raw), limits=None)
    c.check(none == raw and not ch0, "no limits", "a configuration without limits was changed")
    c.nontrivial((tuple(sorted(limits)), bool(changes), "graph" in raw, "views" in raw, "model" in raw["method"]))


def diff(a, b, x, y, path=""):
    if isinstance(x, dict) and isinstance(y, dict):
        for k in sorted(set(x) | set(y)):
            if x.get(k, "<absent>") != y.get(k, "<absent>"):
                return diff(a, b, x.get(k, "<absent>"), y.get(k, "<absent>"), path + "." + k)
    return f"{path}: {short(x)} expected {short(y)}"


@M.scenario(quick=40, thorough=700)
def limited_runs(c):
    """What the method and the graph get in a run with limits, and what is recorded."""
    with bg.sandbox(c) as root, bp.registered() as log:
        trans = c.chance(0.4)
        w, ds = bg.world(c, kinds=("tab",), labels=("int",))
        cfg = bg.base(c, root, w, kind="transductive" if trans else "inductive", params={"a": 3, "batch_size": c.pick(SIZES[1:]), "classifier_params": {"batch_size": c.pick(SIZES[1:])}})
        if c.chance(0.5):
            cfg["method"]["params"]["sup_batch_size"] = c.pick(SIZES[1:])
        plain = copy.deepcopy(cfg)
        limits = {k: v for k, v in some_limits(c).items() if k not in ("max_train_samples", "max_test_samples")}
        cfg["limits"] = limits
        a = outcome(c, plain, ds, root, log)
        b = outcome(c, cfg, ds, root, log)
        c.check((a["rep"] is None) == (b["rep"] is None) and (a["rep"] is None or a["rep"]["run"]["status"] == b["rep"]["run"]["status"]), "limits change the outcome", lambda: f"{short(a)} vs {short(b)}")
        if a["rep"] is None or a["rep"]["run"]["status"] != "success":
            return c.count("refused")
        want = own_limits(cfg, limits)
        f = b["fits"][0]["spec"]
        for k in ("batch_size", "sup_batch_size", "classifier_params"):
            if k in want["method"]["params"]:
                c.check(getattr(f, k) == want["method"]["params"][k], "method got the limited " + k, lambda k=k: f"{getattr(f, k)} expected {want['method']['params'][k]} under {limits}")
        c.check(f.sup_batch_size == want["method"]["params"].get("sup_batch_size", 1000), "unset parameter stays unset", str(f.sup_batch_size))
        got = yaml.safe_load((b["dir"] / "config.yaml").read_text())
        c.check(got["method"]["params"] == want["method"]["params"], "recorded method parameters", short(got["method"]["params"]))
        if "graph" in want:
            c.check(got["graph"]["spec"].get("chunk_size") == want["graph"]["spec"].get("chunk_size"), "recorded chunk size", short(got["graph"]))
            c.check(np.array_equal(a["fits"][0]["edge_index"], b["fits"][0]["edge_index"]), "chunk size changes the graph", "edges differ with the chunk size")
        n = b["rep"]["resolution"]["limits"]
        prof = limits.get("profile")
        c.check({k: v for k, v in n["requested"].items() if v is not None} == {**limits, **({"profile": prof.lower()} if prof else {})}, "requested limits recorded", short(n))
        c.nontrivial((trans, tuple(sorted(limits)), bool(n["changes"])))


def outcome(c, cfg, ds, root, log):
    log.clear()
    code, new = bg.run(cfg, ds, root)
    rep = bg.report(new[0]) if new and (new[0] / "run.json").exists() else None
    return {"code": code, "rep": rep, "dir": new[0] if new else None, "fits": [e for e in log if e["ev"] == "fit"], "events": len(log), "dirs": len(new)}


# ---- refusals ---------------------------------------------------------------------------------------------------
def put(cfg, path, v):
    d = cfg
    ks = path.split(".")
    for k in ks[:-1]:
        d = d.setdefault(k, {})
    d[ks[-1]] = v


def drop(cfg, path):
    d = cfg
    ks = path.split(".")
    for k in ks[:-1]:
        d = d[k]
    del d[ks[-1]]


UNKNOWN = ["modle", "run.sead", "run.outdir", "dataset.cache", "sampling.sed", "sampling.plans", "preprocess.fit", "preprocess.steps", "method.parms", "method.name", "method.device.gpu",
           "evaluation.metric", "evaluation.splits", "views.seeds", "graph.specs", "graph.k", "augmentation.wek", "limits.max_batch", "run.benchmark", "limits.max_train"]
WRONG = [("run.name", ""), ("run.name", 3), ("run.seeds", []), ("run.seeds", 5), ("run.seeds", [1, 1]), ("run.seeds", [1, "2"]), ("run.fail_fast", "yes"), ("run.benchmark_mode", 1),
         ("dataset.id", ""), ("dataset.id", None), ("dataset.download", "true"), ("dataset.options", [1]), ("sampling.plan", {}), ("sampling.plan", [1]), ("sampling.seed", "a"), ("sampling.seed", 1.5),
         ("preprocess.plan", {}), ("preprocess.cache", "no"), ("preprocess.seed", "x"), ("preprocess.fit_on", 3), ("method.kind", "deductive"), ("method.kind", None), ("method.id", ""),
         ("method.params", [1]), ("method.device", "cpu"), ("evaluation.report_splits", []), ("evaluation.metrics", []), ("evaluation.metrics", "accuracy"), ("evaluation.report_splits", "val"),
         ("views", {"plan": {}}), ("graph.enabled", "yes"), ("graph.spec", [1]), ("limits.profile", "a100"), ("limits.max_method_batch_size", 0), ("limits.max_method_batch_size", -4),
         ("limits.max_graph_chunk_size", "big"), ("method.model", {}), ("method.model", {"factory": "os:getcwd"}), ("method.model", {"classifier_id": "mlp", "factory": "a:b"}),
         ("method.model", {"classifier_id": "mlp", "ema": "yes"}), ("method.model", {"classifier_id": "mlp", "hidden": 3}), ("method.model", {"classifier_id": ""}), ("run", [1]), ("evaluation", None), ("method", "vf_probe"),
         ("augmentation", {"enabled": "yes"}), ("run.log_level", 3)]
MISSING = ["run.name", "dataset.id", "sampling.plan", "preprocess.plan", "method.kind", "method.id", "evaluation.report_splits", "evaluation.metrics", "method", "dataset", "sampling", "preprocess", "evaluation", "run"]
LATE = [("evaluation.metrics", ["accuracy", "auc"]), ("evaluation.report_splits", ["val", "dev"]), ("preprocess.fit_on", "tset"), ("method.id", "no_such_method"), ("method.params", {"a": 1, "alpha_typo": 2}),
        ("preprocess.plan", {"output_key": "features.X", "steps": [{"id": "core.no_such_step"}]}), ("preprocess.plan", {"output_key": "features.X", "steps": [{"params": {}}]}),
        ("preprocess.plan", {"output_key": "features.X", "steps": "core.to_numpy"}), ("sampling.plan.split.kind", "loo"), ("sampling.plan.splitt", {}), ("sampling.plan.labeling.mode", "percent"),
        ("augmentation", {"enabled": True, "mode": "random", "weak": {"steps": []}, "strong": {"steps": []}}),
        ("augmentation", {"enabled": True, "mode": "fixed", "weak": {}, "strong": {}}), ("method.id", "co_training"), ("views.plan", {"views": "all"}),
        ("views", "fittable")]


@M.scenario(quick=200, thorough=3000)
def refused(c):
    """One defect anywhere: the run is refused, nothing is fitted, and a malformed configuration leaves no run folder."""
    with bg.sandbox(c) as root, bp.registered() as log:
        w, ds = bg.world(c, kinds=("tab",), labels=("int",))
        cfg = bg.base(c, root, w, params={"a": 1})
        cfg["run"]["fail_fast"] = c.chance(0.5)
        how = c.pick(["unknown", "wrong", "missing", "late"])
        what = c.pick({"unknown": UNKNOWN, "wrong": WRONG, "missing": MISSING, "late": LATE}[how])
        if how == "missing":
            drop(cfg, what)
        else:
            path, v = (what, c.pick([1, "x", None, {}])) if how == "unknown" else what
            if path.split(".")[0] == "graph" and how != "unknown":
                cfg.setdefault("graph", {"enabled": True, "spec": {"scheme": "knn", "k": 3}})
            if path.split(".")[0] == "views" and how == "unknown":
                cfg["views"] = {"plan": {"views": [{"name": "v"}]}}
            put(cfg, path, copy.deepcopy(v))
            if v == "fittable":  # a fitted view step and nothing to fit it on
                cfg["views"] = {"plan": {"views": [{"name": "v", "preprocess": {"output_key": "features.X", "steps": [{"id": "core.ensure_2d"}]}},
                                                   {"name": "w", "preprocess": {"output_key": "features.X", "steps": [{"id": "core.ensure_2d"}, {"id": "core.pca", "params": {"n_components": 1}}]}}]}}
                cfg["preprocess"]["plan"]["steps"] = [{"id": "core.ensure_2d"}]
                cfg["preprocess"].pop("fit_on", None)
        out = root / "out"
        p = bg.write(cfg, root)
        from bench.main import run_experiment

        with bg.source(ds):
            try:
                code = run_experiment(p)
            except Exception as e:  # noqa: BLE001
                code = e
        dirs = sorted(out.glob("*")) if out.exists() else []
        c.check(code != 0, "defective configuration refused", lambda: f"{how} {what} was run as if it were fine")
        c.check(not [e for e in log if e["ev"] == "fit"], "refused before any fit", f"{how} {what}")
        if how != "late":
            c.check(isinstance(code, ValueError) and not dirs and not (root / "ds").exists(), "refused before anything is touched", lambda: f"{how} {what}: {short(code)}, {len(dirs)} run folders")
        else:
            c.check(len(dirs) == 1 and bg.report(dirs[0])["run"]["status"] == "failed" and not bg.report(dirs[0])["metrics"], "refusal is reported", lambda: f"{what}: {short(code)} {dirs}")
        c.nontrivial((how, str(what)))


# ---- benchmark mode ---------------------------------------------------------------------------------------------
BREACH = {
    "E_BENCH_FAIL_FAST_REQUIRED": [("run.fail_fast", False)],
    "E_BENCH_DOWNLOAD_FORBIDDEN": [("dataset.download", True)],
    "E_BENCH_CACHE_DIR_REQUIRED": [("dataset.cache_dir", None)],
    "E_BENCH_AUTO_FORBIDDEN": [("method.device.device", "auto"), ("limits", {"profile": "auto"}), ("graph", {"enabled": True, "spec": {"scheme": "knn", "k": 3, "backend": "auto"}}),
                               ("method.params.backend", "auto"), ("method.params.extra", {"backend": "auto"}), ("method.params.extra", {"deep": [{"classifier_backend": " Auto "}]}),
                               ("method.params.classifier_params", {"device": "AUTO"})],
    "E_BENCH_SPLIT_MODEL_SELECTION_REQUIRED": [("evaluation.split_for_model_selection", None)],
    "E_BENCH_SPLIT_MODEL_SELECTION_INVALID": [("evaluation.split_for_model_selection", "other")],
    "E_BENCH_SPLIT_MODEL_SELECTION_CONFLICT": [("search.objective.split", "other")],
    "E_BENCH_BACKEND_REQUIRED": [("method.params.backend", "drop")],
    "E_BENCH_FIT_ON_REQUIRED": [("preprocess.fit_on", "fittable")],
}


@M.scenario(quick=80, thorough=1200)
def contract(c):
    with bg.sandbox(c) as root, bp.registered() as log:
        w, ds = bg.world(c, kinds=("tab", "text"), labels=("int", "gap"))
        cfg = bg.base(c, root, w, params={"a": 1, "backend": "numpy"})
        cfg["run"].update(benchmark_mode=False, fail_fast=True)
        cfg["evaluation"]["report_splits"] = ["train", "val"]
        free = copy.deepcopy(cfg)
        with bg.source(ds):  # the data must be there already
            from modssc.data_loader import load_dataset

            load_dataset("toy", cache_dir=root / "ds", download=True)
        cfg["dataset"]["download"] = False
        cfg["run"]["benchmark_mode"] = True
        cfg["evaluation"]["split_for_model_selection"] = "val"
        sel = {"enabled": True, "kind": "grid", "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"}, "space": {"method": {"params": {"b": [0.1, 0.2]}}}}
        code = c.pick([None, None] + sorted(BREACH))
        if code is None:
            a, b = outcome(c, free, ds, root, log), outcome(c, cfg, ds, root, log)
            if a["rep"] is None or a["rep"]["run"]["status"] != "success":
                return c.count("refused")
            c.check(b["code"] == 0 and b["rep"]["run"]["status"] == "success", "a benchmark run that keeps the contract", lambda: f"{short(b['code'])}")
            c.check(bg.same(a["rep"]["metrics"], b["rep"]["metrics"]) and b["rep"]["run"]["benchmark_mode"] is True, "benchmark mode keeps the results", lambda: f"{a['rep']['metrics']} vs {b['rep']['metrics']}")
            c.check(b["rep"]["protocol"]["split_for_model_selection"] == "val", "selection split recorded", short(b["rep"]["protocol"]))
            return c.nontrivial(("kept", w["kind"]))
        path, v = c.pick(BREACH[code])
        if code == "E_BENCH_SPLIT_MODEL_SELECTION_CONFLICT":
            sel["objective"]["split"] = "train"
            cfg["search"] = sel
        elif path == "evaluation.split_for_model_selection" and v == "other":
            cfg["evaluation"]["split_for_model_selection"] = "test"
        elif v == "drop":
            drop(cfg, path)
        elif v == "fittable":
            cfg["preprocess"].pop("fit_on", None)
            if w["kind"] == "tab":
                cfg["preprocess"]["plan"]["steps"].append({"id": "core.pca", "params": {"n_components": 2}})
        else:
            put(cfg, path, copy.deepcopy(v))
        b = outcome(c, cfg, ds, root, log)
        c.check(isinstance(b["code"], ValueError) and getattr(b["code"], "code", None) == code, "breach refused with its code", lambda: f"{path}={v}: expected {code}, got {short(b['code'])}")
        c.check(b["events"] == 0, "breach refused before any fit", f"{path}={v}")
        if b["rep"] is not None:
            c.check(b["rep"]["run"]["status"] == "failed" and b["rep"]["run"]["error_code"] == code and not b["rep"]["metrics"], "breach reported", short(b["rep"]["run"]))
        c.nontrivial((code, path, str(v)))


# ---- placeholders -----------------------------------------------------------------------------------------------
@M.scenario(quick=150, thorough=3000)
def placeholders(c):
    from bench.utils.io import load_yaml

    with bg.sandbox(c) as root:
        names = {"VF_A": c.pick(["x", "", "/p/q", "3", "a b", "$VF_B", "${VF_B}", "\\1", "é"]), "VF_B": "bee", "VF_LONG_1": "long"}
        for k, v in names.items():
            os.environ[k] = v
        try:
            def text():
                parts, want, miss = [], [], False
                for _ in range(c.py.randint(1, 4)):
                    k = c.pick(sorted(names))
                    kind = c.pick(["plain", "brace", "bare", "lit", "missing" if c.chance(0.1) else "lit"])
                    if kind == "plain":
                        s = c.pick(["abc", "-", "1.5", "{}", "%d", "~"])
                        parts.append(s), want.append(s)
                    elif kind == "brace":
                        parts.append("${" + k + "}"), want.append(names[k])
                    elif kind == "bare":
                        parts.append("$" + k + "/"), want.append(names[k] + "/")
                    elif kind == "missing":
                        parts.append("${VF_NOT_SET}"), want.append("")
                        miss = True
                    else:
                        parts.append(" lit "), want.append(" lit ")
                return "".join(parts), "".join(want), miss
            def tree(d=0):
                r = c.py.random()
                if d < 3 and r < 0.35:
                    out = {f"k{i}": tree(d + 1) for i in range(c.py.randint(0, 3))}
                    return {k: v[0] for k, v in out.items()}, {k: v[1] for k, v in out.items()}, any(v[2] for v in out.values())
                if d < 3 and r < 0.5:
                    out = [tree(d + 1) for _ in range(c.py.randint(0, 3))]
                    return [v[0] for v in out], [v[1] for v in out], any(v[2] for v in out)
                if r < 0.6:
                    v = c.pick([1, 2.5, True, None, [1, 2]])
                    return v, v, False
                return text()
            raws = {f"s{i}": tree() for i in range(3)}
            doc = {k: v[0] for k, v in raws.items()}
            want = {k: v[1] for k, v in raws.items()}
            p = root / "c.yaml"
            p.write_text(yaml.safe_dump(doc, allow_unicode=True), encoding="utf-8")
            if any(v[2] for v in raws.values()):
                c.raises(ValueError, lambda: load_yaml(p), "unset placeholder")
            else:
                got = load_yaml(p)
                c.check(got == want, "placeholders", lambda: f"{short(doc)} -> {short(got)}, expected {short(want)}")
            c.check(load_yaml_plain(load_yaml, root) == {"out": str(root / "cache" / "output")}, "cache placeholders", "MODSSC_OUTPUT_DIR below the cache root")
            c.nontrivial(tuple(sorted(k for k in ("VF_A", "VF_B", "VF_LONG_1") if k in str(doc))) + (names["VF_A"],))
        finally:
            for k in names:
                os.environ.pop(k, None)


def load_yaml_plain(load_yaml, root):
    p = root / "d.yaml"
    p.write_text("out: ${MODSSC_OUTPUT_DIR}\n")
    return load_yaml(p)
