"""Benchmark-runner experiments: generated data sources and configurations, and an own staging of the pipeline
(split, preprocess, views, graph, augmentation) from the library's public calls, used as the reference."""
from __future__ import annotations

import copy
import hashlib
import json
import os
import shutil
from contextlib import contextmanager
from pathlib import Path

import numpy as np
import yaml
from modssc.data_loader.types import LoadedDataset, Split

from . import dsgen

ENV = ("MODSSC_CACHE_ROOT", "MODSSC_CACHE_DIR", "MODSSC_PREPROCESS_CACHE_DIR", "MODSSC_SPLIT_CACHE_DIR", "MODSSC_GRAPH_CACHE_DIR",
       "MODSSC_GRAPH_VIEWS_CACHE_DIR", "MODSSC_OUTPUT_DIR", "MODSSC_DATASET_CACHE_DIR")


def derive(seed, label):
    return int.from_bytes(hashlib.sha256(f"{int(seed)}:{label}".encode()).digest()[:4], "big")


@contextmanager
def sandbox(c):
    """Every cache of the library below one scratch folder."""
    root = Path(c.tmp()).resolve()
    old = {k: os.environ.get(k) for k in ENV}
    for k in ENV:
        os.environ.pop(k, None)
    os.environ["MODSSC_CACHE_ROOT"] = str(root / "cache")
    shutil.copy("/repo/pyproject.toml", root)  # the runner looks up optional dependencies from its working directory
    cwd = os.getcwd()
    os.chdir(root)
    try:
        yield root
    finally:
        os.chdir(cwd)
        for k, v in old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


# ---- data -------------------------------------------------------------------------------------------------------
def world(c, *, kinds=("tab", "tab", "text", "image", "graph"), n=None, official=None, labels=("int", "int", "gap", "str"), separable=None, tiny=False):
    """(description, LoadedDataset): rows are distinct, classes all present, label values of several kinds."""
    kind = c.pick(list(kinds))
    n = n or c.py.randint(24, 70)
    k = c.py.randint(2, 4)
    lab = c.pick(list(labels))
    official = (c.chance(0.4) if official is None else official) and kind != "graph"
    m = c.py.randint(6, 20) if official else 0
    tot = n + m
    codes = np.r_[np.arange(k), np.arange(k), c.rng.integers(0, k, size=n - 2 * k)]
    codes = codes[c.rng.permutation(n)]
    codes = np.r_[codes, c.rng.integers(0, k, size=m)]
    vals = {"int": np.arange(k), "gap": np.sort(c.rng.choice(20, size=k, replace=False)) + 1}.get(lab)
    if lab == "str":
        y = np.array([f"c{i}" for i in range(k)], dtype=object)[codes]
    else:
        y = vals[codes].astype(np.int64)
    sep = c.pick([0.0, 1.0, 4.0]) if separable is None else separable
    if kind in ("tab", "graph"):
        d = c.py.randint(3, 6)
        X = c.rng.normal(size=(tot, d)) + sep * np.eye(k, d)[codes] if d >= k else c.rng.normal(size=(tot, d)) + sep * codes[:, None]
        X = X.astype(c.pick([np.float32, np.float64]))
    elif kind == "image":
        h = c.pick([5, 6])
        X = c.rng.random(size=(tot, h, h, 3)).astype(np.float32) + np.float32(0.1 * sep) * codes[:, None, None, None].astype(np.float32)
        if c.chance(0.4):
            X = np.clip(X * 120, 0, 255).astype(np.uint8)
    else:
        words = ["red", "blue", "cat", "dog", "sun", "moon", "tea", "ink", "oak", "elm"]
        X = np.empty(tot, dtype=object)
        X[:] = [" ".join([c.pick(words) for _ in range(c.py.randint(3, 8))] + ([f"k{codes[i]}"] if sep else []) + [f"w{i}"]) for i in range(tot)]
    edges = masks = None
    if kind == "graph":
        src, dst = c.rng.integers(0, n, size=3 * n), c.rng.integers(0, n, size=3 * n)
        same = codes[src] == codes[dst]
        keep = (src != dst) & (same | (c.rng.random(3 * n) < 0.3))
        pairs = np.unique(np.stack([src[keep], dst[keep]]), axis=1)
        edges = np.unique(np.concatenate([pairs, pairs[::-1]], axis=1), axis=1).astype(np.int64)
        if tiny and c.chance(0.25):
            edges = pairs[:, :2].astype(np.int64)
        if c.chance(0.4):
            part = c.rng.permutation(np.r_[np.zeros(n // 2, int), np.ones(n // 4, int), np.full(n - n // 2 - n // 4, 2)])
            masks = {"train": part == 0, "val": part == 1, "test": part == 2}
    tr = Split(X=X[:n], y=y[:n], edges=edges, masks=masks)
    te = Split(X=X[n:], y=y[n:]) if official else None
    modality = {"tab": "tabular", "graph": "graph", "image": "vision", "text": "text"}[kind]
    ds = LoadedDataset(train=tr, test=te, meta={"modality": modality})
    return {"kind": kind, "n": n, "m": m, "k": k, "labels": lab, "official": official, "masks": masks is not None}, ds


def source(ds):
    return dsgen.toy_source(lambda identity, raw_dir: LoadedDataset(
        train=copy.deepcopy(ds.train), test=copy.deepcopy(ds.test), meta=dict(ds.meta)))


# ---- configuration ----------------------------------------------------------------------------------------------
def sampling_plan(c, w):
    split = {"kind": "holdout", "test_fraction": c.pick([0.0, 0.2, 0.3]) if not w["official"] else c.pick([0.0, 0.2]),
             "val_fraction": c.pick([0.1, 0.2, 0.3]), "stratify": c.chance(0.5), "shuffle": c.chance(0.9)}
    if c.chance(0.15):
        split = {"kind": "kfold", "k": 4, "fold": c.py.randrange(4), "stratify": c.chance(0.5), "shuffle": True, "val_fraction": 0.2}
    mode = c.pick(["fraction", "count", "per_class"])
    lab = {"mode": mode, "value": {"fraction": c.pick([0.2, 0.4]), "count": c.py.randint(6, 12), "per_class": c.pick([2, 3])}[mode],
           "strategy": c.pick(["balanced", "proportional"]), "min_per_class": c.pick([0, 1, 2])}
    pol = {"respect_official_test": c.chance(0.75), "use_official_graph_masks": c.chance(0.6), "allow_override_official": c.chance(0.2)}
    return {"split": split, "labeling": lab, "imbalance": {"kind": "none"}, "policy": pol}


def preprocess_plan(c, w, *, torch=False, plain=False):
    st = []
    if w["kind"] in ("tab", "graph"):
        st += c.pick([[{"id": "core.ensure_2d"}, {"id": "core.to_numpy"}], [{"id": "core.copy_raw"}], [{"id": "core.ensure_2d"}]])
        if not plain and c.chance(0.5):
            st.append({"id": "tabular.standard_scaler"} if w["kind"] == "tab" else {"id": "core.pca", "params": {"n_components": 2}})
        if not plain and w["kind"] == "tab" and c.chance(0.3):
            st.append({"id": c.pick(["core.pca", "core.random_projection"]), "params": {"n_components": 2}})
    elif w["kind"] == "text":
        st += [{"id": "text.ensure_strings"}, {"id": "text.tfidf", "params": {"max_features": c.pick([12, 40])}}, {"id": "core.to_numpy"}]
    else:
        st += [{"id": "core.copy_raw"}]
        if c.chance(0.4):
            st.append({"id": "core.ensure_2d"})
    lab = []
    if w["labels"] == "str" or (c.chance(0.4) and w["labels"] != "int") or c.chance(0.15):
        lab.append({"id": "labels.encode"})
    if torch:
        st.append({"id": "core.to_torch"})
        if lab and c.chance(0.5):
            lab.append({"id": "labels.to_torch"})
    for _ in range(2):
        if c.chance(0.15):  # steps that are written down but must not run
            off = c.pick([{"id": "core.pca", "params": {"n_components": 1}}, {"id": "core.random_projection", "params": {"n_components": 1}}])
            off = {**off, "enabled": False} if c.chance(0.5) else {**off, "modalities": ["audio"]}
            st.insert(c.py.randint(0, len(st)), off)
    return {"output_key": "features.X", "steps": lab + st if c.chance(0.5) else st + lab}


FITTABLE = {"core.pca", "core.random_projection", "tabular.standard_scaler", "text.tfidf", "labels.encode", "text.vocab_tokenizer", "vision.zca_whitening",
            "tabular.impute", "tabular.one_hot"}


def aug_plans(c, w, shape_nd):
    ops = {
        "tab": [{"id": "tabular.gaussian_noise", "params": {"std": 0.3}}, {"id": "tabular.feature_dropout", "params": {"p": 0.4}}],
        "text": [{"id": "tabular.gaussian_noise", "params": {"std": 0.3}}],
        "image": [{"id": "vision.gaussian_noise", "params": {"std": 0.2}}, {"id": "vision.random_horizontal_flip", "params": {"p": 0.5}}] if shape_nd > 2
        else [{"id": "tabular.gaussian_noise", "params": {"std": 0.2}}],
    }[w["kind"]]
    mod = {"tab": "tabular", "text": "tabular", "image": "vision" if shape_nd > 2 else "tabular"}[w["kind"]]
    pick = lambda: {"steps": [copy.deepcopy(o) for o in c.py.sample(ops, c.py.randint(1, len(ops)))]}
    return {"enabled": True, "mode": "fixed", "modality": mod, "weak": pick(), "strong": pick()}


def seeds(c, cfg, p=0.4):
    for s in ("sampling", "preprocess", "views", "graph", "augmentation"):
        if s in cfg and c.chance(p):
            cfg[s]["seed"] = 0 if c.chance(0.25) else c.py.randrange(1000)


def base(c, root, w, *, kind="inductive", method=None, params=None, torch=False, plain=False, tag="exp", graph=None, cache=None):
    pre = preprocess_plan(c, w, torch=torch, plain=plain)
    cache = c.chance(0.7) if cache is None else cache
    cfg = {
        "run": {"name": tag, "seed": c.py.randrange(10000), "output_dir": str(root / "out"), "fail_fast": False},
        "dataset": {"id": "toy", "download": True, "cache_dir": str(root / "ds"),
                    **({"options": {"seed": c.pick([0, 3]), "official_test": c.chance(0.5), "n_samples": c.pick([64, 80])}} if c.chance(0.4) else {})},
        "sampling": {"plan": sampling_plan(c, w)},
        "preprocess": {"cache": cache, "cache_dir": str(root / "pre"), "plan": pre,
                       "fit_on": c.pick(["train", "train_labeled", "train_unlabeled", "train_labeled", "val"])},
        "method": {"kind": kind, "id": method or ("vf_probe" if kind == "inductive" else "vf_tprobe"), "device": {"device": "cpu", "dtype": "float32"},
                   "params": dict(params or {})},
        "evaluation": {"report_splits": c.py.sample(["train", "val", "test"], c.py.randint(1, 3)),
                       "metrics": c.py.sample(["accuracy", "macro_f1", "balanced_accuracy"], c.py.randint(1, 3))},
    }
    ids = {s["id"] for s in pre["steps"]}
    if not (ids & FITTABLE) and c.chance(0.4):
        del cfg["preprocess"]["fit_on"]
    if graph if graph is not None else (kind == "transductive" and (w["kind"] != "graph" or c.chance(0.3))):
        cfg["graph"] = {"enabled": True, "cache": cache, "cache_dir": str(root / "gr"), "spec": graph_spec(c)}
        if w["kind"] != "text" and c.chance(0.3):
            cfg["graph"]["spec"]["feature_field"] = "raw.X"
    return cfg


def graph_spec(c):
    s = {"scheme": "knn", "metric": c.pick(["cosine", "euclidean"]), "k": c.pick([3, 5]), "symmetrize": c.pick(["or", "none", "mutual"]),
         "weights": {"kind": c.pick(["binary", "heat", "cosine"])}, "normalize": c.pick(["none", "rw", "sym"]), "backend": "numpy", "self_loops": c.chance(0.5)}
    if s["weights"]["kind"] == "heat":
        s["weights"]["sigma"] = 1.0
    if s["weights"]["kind"] == "cosine":
        s["metric"] = "cosine"
    if c.chance(0.3):
        s.update(c.pick([{"scheme": "epsilon", "k": None, "radius": 3.0 if s["metric"] == "euclidean" else 0.9}, {"scheme": "anchor", "n_anchors": 8, "anchors_k": 3, "candidate_limit": 50}]))
    return s


# ---- own staging ------------------------------------------------------------------------------------------------
def _pre_plan(obj):
    from modssc.preprocess.plan import PreprocessPlan, StepConfig

    return PreprocessPlan(steps=tuple(StepConfig(step_id=s["id"], params=dict(s.get("params") or {}), enabled=s.get("enabled", True),
                                                 modalities=tuple(s.get("modalities") or ()), requires_fields=tuple(s.get("requires_fields") or ()))
                                      for s in obj["steps"]), output_key=obj.get("output_key", "features.X"))


def stage(cfg, ds_mem, root):
    """The experiment's data as the configuration names it, from the library's own calls (no runner, no caches)."""
    from modssc.data_loader import load_dataset
    from modssc.preprocess import preprocess
    from modssc.sampling import sample
    from modssc.sampling.plan import SamplingPlan

    rs = cfg["run"]["seed"]
    sd = lambda s: cfg[s]["seed"] if cfg[s].get("seed") is not None else derive(rs, s)
    with source(ds_mem):
        ds = load_dataset("toy", cache_dir=root / "ref_ds", download=True, options=dict(cfg["dataset"].get("options") or {}))
    res, _ = sample(ds, plan=SamplingPlan.from_dict(copy.deepcopy(cfg["sampling"]["plan"])), seed=sd("sampling"),
                    dataset_fingerprint=ds.meta["dataset_fingerprint"], save=False)
    if res.is_graph():
        at = lambda k: np.flatnonzero(np.asarray(res.masks[k], bool))
        idx = {"train": at("train"), "val": at("val"), "test": at("test"), "train_labeled": at("labeled"), "train_unlabeled": at("unlabeled")}
        refs = dict.fromkeys(idx, "train")
    else:
        idx = {k: np.asarray(v) for k, v in res.indices.items()}
        refs = dict(res.refs)
    fit_on = cfg["preprocess"].get("fit_on")
    pre = preprocess(ds, _pre_plan(cfg["preprocess"]["plan"]), seed=sd("preprocess"), fit_indices=None if fit_on is None else idx[fit_on], cache=False)
    out = {"ds": ds, "idx": idx, "refs": refs, "pre": pre, "seed": {s: sd(s) for s in ("sampling", "preprocess", "views", "graph", "augmentation") if s in cfg},
           "res": res, "fit": None if fit_on is None else idx[fit_on]}

    def lab(split):
        store = pre.train_artifacts if split == "train" else pre.test_artifacts
        if store is not None and store.has("labels.y"):
            return np.asarray(store.get("labels.y"))
        return np.asarray((pre.dataset.train if split == "train" else pre.dataset.test).y)

    out["y"] = {s: lab(s) for s in ("train", "test") if s == "train" or pre.dataset.test is not None}
    out["X"] = {"train": pre.dataset.train.X, "test": None if pre.dataset.test is None else pre.dataset.test.X}
    return out


def rows(x, idx):
    if isinstance(x, dict):
        return {k: rows(v, idx) for k, v in x.items()}
    if isinstance(x, list):
        return [x[int(i)] for i in idx]
    a = x.detach().cpu().numpy() if hasattr(x, "detach") else np.asarray(x)
    return a[np.asarray(idx)]


def y1(y):
    y = np.asarray(y.detach().cpu().numpy() if hasattr(y, "detach") else y)
    return y.argmax(1) if y.ndim == 2 else y.reshape(-1)


# ---- running ----------------------------------------------------------------------------------------------------
def write(cfg, root, name="cfg.yaml"):
    p = Path(root) / name
    p.write_text(yaml.safe_dump(cfg, sort_keys=False), encoding="utf-8")
    return p


def run(cfg, ds_mem, root, name="cfg.yaml", num_runs=None):
    """run_experiment on the configuration; returns (exit code or exception, [run dirs] created by it)."""
    from bench.main import run_experiment

    out = Path(cfg["run"]["output_dir"])
    before = set(out.glob("*")) if out.exists() else set()
    with source(ds_mem):
        try:
            code = run_experiment(write(cfg, root, name), num_runs=num_runs)
        except Exception as e:  # noqa: BLE001
            code = e
    new = sorted(p for p in (set(out.glob("*")) if out.exists() else set()) - before)
    return code, new


def report(d):
    return json.loads((Path(d) / "run.json").read_text(encoding="utf-8"))


def metric(name, yt, yp):
    yt, yp = np.asarray(yt), np.asarray(yp)
    if yt.size == 0:
        return float("nan")
    if name == "accuracy":
        return float(np.mean([a == b for a, b in zip(yt.tolist(), yp.tolist())]))
    vals = []
    for cl in sorted(set(yt.tolist())):
        tp = sum(1 for a, b in zip(yt.tolist(), yp.tolist()) if a == cl and b == cl)
        nt, npd = int((yt == cl).sum()), int((yp == cl).sum())
        if name == "balanced_accuracy":
            vals.append(tp / nt)
        else:
            vals.append(2 * tp / (nt + npd))
    return float(np.mean(vals))


def close(a, b, tol=1e-9):
    if a is None or b is None:
        return a is b
    a, b = float(a), float(b)
    return (np.isnan(a) and np.isnan(b)) or abs(a - b) <= tol


# ---- whole experiments ------------------------------------------------------------------------------------------
DEEP = ["pi_model", "mean_teacher", "temporal_ensembling", "uda", "fixmatch", "defixmatch", "flexmatch", "adamatch", "softmatch", "free_match", "comatch",
        "adsh", "daso", "noisy_student", "meta_pseudo_labels", "mixmatch", "vat", "deep_co_training", "simclr_v2", "trinet"]
CLASSIC = ["supervised", "pseudo_label", "self_training", "setred", "tri_training", "democratic_co_learning", "co_training"]
TRANS = [("label_propagation", {}), ("label_spreading", {}), ("gcn", {"max_epochs": 4, "hidden_dim": 4}), ("gat", {"max_epochs": 3, "head_dim": 2, "heads": 2}),
         ("grand", {"max_epochs": 3, "hidden_dim": 4}), ("graphsage", {"max_epochs": 3, "hidden_dim": 4}), ("poisson_learning", {}), ("appnp", {"max_epochs": 3, "hidden_dim": 4})]


def classic_params(c, mid):
    p = {"classifier_id": "knn", "classifier_backend": c.pick(["numpy", "sklearn"]), "classifier_params": {"k": c.pick([1, 3])}}
    if mid in ("supervised", "tri_training", "pseudo_label") and c.chance(0.5):
        p = {"classifier_id": "logreg", "classifier_backend": "torch", "classifier_params": {"max_epochs": 3}}
    if mid == "democratic_co_learning":
        return {}
    if mid in ("pseudo_label", "self_training", "setred", "tri_training", "co_training"):
        p["max_iter"] = c.py.randint(1, 3)
    return p


def deep_method(c, mid):
    """method section of a deep method over an MLP built by the runner."""
    from dataclasses import fields

    from modssc.inductive.registry import get_method_class

    spec = {f.name for f in fields(get_method_class(mid)().spec)}
    params = {k: v for k, v in (("max_epochs", 2), ("batch_size", c.pick([4, 7])), ("pretrain_epochs", 1), ("finetune_epochs", 1), ("distill_epochs", 1),
                                ("pretrain_batch_size", 8), ("finetune_batch_size", 4), ("distill_batch_size", 8)) if k in spec}
    net = {"hidden_sizes": [c.pick([5, 8])], "activation": "relu", "dropout": c.pick([0.0, 0.3]), "lr": 0.01}
    if mid in ("comatch", "daso", "simclr_v2"):
        net["return_features"] = True
    return {"kind": "inductive", "id": mid, "device": {"device": "cpu", "dtype": "float32"}, "params": params,
            "model": {"classifier_id": "mlp", "classifier_backend": "torch", "classifier_params": net, "ema": mid == "mean_teacher" or c.chance(0.2)}}


def experiment(c, root, kind=None):
    """(kind, world, data, configuration) of one whole experiment of any kind."""
    kind = kind or c.pick(["probe", "probe", "tprobe", "classic", "classic", "deep", "deep", "trans", "trans", "graph"])
    if kind in ("probe", "classic", "deep"):
        w, ds = world(c, kinds=("tab", "tab", "text", "image") if kind != "deep" else ("tab", "text"), labels=("int",) if kind == "deep" else ("int", "gap", "str"))
        torch = kind == "probe" and c.chance(0.3)
        mid = {"probe": "vf_probe", "classic": c.pick(CLASSIC), "deep": c.pick(DEEP)}[kind]
        params = {"probe": {"a": c.py.randint(0, 9)}, "deep": {}}.get(kind)
        cfg = base(c, root, w, method=mid, params=classic_params(c, mid) if params is None else params, torch=torch, plain=mid == "co_training")
        if kind == "deep":
            cfg["method"] = deep_method(c, mid)
            cfg["sampling"]["plan"]["labeling"] = {"mode": "per_class", "value": 3, "strategy": "balanced", "min_per_class": 1}
        if mid == "co_training":
            cfg["views"] = {"plan": {"views": [{"name": "v1", "columns": {"mode": "random", "fraction": 0.5, "seed_offset": 1}},
                                               {"name": "v2", "columns": {"mode": "complement", "complement_of": "v1"}}]}}
        if kind == "deep" or c.chance(0.4):
            nd = 2 if w["kind"] != "image" or any(s["id"] == "core.ensure_2d" for s in cfg["preprocess"]["plan"]["steps"]) else 4
            cfg["augmentation"] = aug_plans(c, w, nd)
    else:
        w, ds = world(c, kinds=("graph",) if kind == "graph" else ("tab", "text", "graph"), labels=("int",))
        mid, params = ("vf_tprobe", {"a": 2}) if kind == "tprobe" else ("vf_probe", {"a": 1}) if kind == "graph" else c.pick(TRANS)
        cfg = base(c, root, w, kind="inductive" if kind == "graph" else "transductive", method=mid, params=dict(params))
        if kind == "graph" and c.chance(0.6):
            cfg["preprocess"]["plan"]["steps"] = [{"id": "core.copy_raw"}, {"id": "graph.sparse_adjacency"}]
    seeds(c, cfg)
    return kind, w, ds, cfg


def remote(payload):
    """Run a pickled experiment in this process; what it reported and what the probe was handed."""
    import pickle

    from . import benchprobe as bp

    root = Path(payload["root"])
    os.chdir(root)
    ds = pickle.loads(Path(payload["ds"]).read_bytes())
    with bp.registered() as log:
        code, new = run(payload["cfg"], ds, root, name="remote.yaml")
        return outcome(code, new, log)


def outcome(code, new, log):
    """Comparable summary of one run: metrics, identities, stage seeds, and a digest of everything the method was handed."""
    h = hashlib.sha256()

    def eat(x):
        if isinstance(x, dict):
            for k in sorted(x, key=str):
                h.update(str(k).encode())
                eat(x[k])
        elif isinstance(x, (list, tuple)):
            for v in x:
                eat(v)
        elif isinstance(x, np.ndarray):
            h.update(str((x.dtype, x.shape)).encode() + (x.tobytes() if x.dtype != object else repr(x.tolist()).encode()))
        else:
            h.update(repr(x).encode())

    for e in log:
        eat({k: v for k, v in e.items() if k != "device"})
    rep = report(new[0]) if len(new) == 1 and (new[0] / "run.json").exists() else None
    out = {"code": code if isinstance(code, int) else f"{type(code).__name__}: {code}", "handed": h.hexdigest() if log else None, "dirs": len(new)}
    if rep is not None:
        a = rep["artifacts"]
        out.update(status=rep["run"]["status"], metrics=rep["metrics"], error=rep["error"], run_id=rep["run"]["run_id"], hashes=rep["hashes"],
                   seeds={s: a[s].get("seed") for s in ("sampling", "preprocess", "views", "graph", "augmentation") if s in a},
                   split=a.get("sampling", {}).get("split_fingerprint"), pre=a.get("preprocess", {}).get("preprocess_fingerprint"),
                   graph=a.get("graph", {}).get("fingerprint"), data=a.get("dataset", {}).get("fingerprint"), hpo=rep["hpo"])
    return out


def same(x, y):
    """Equal with NaN equal to NaN (JSON-able values)."""
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(map(same, x, y))
    if isinstance(x, float) and isinstance(y, float) and np.isnan(x) and np.isnan(y):
        return True
    return x == y
