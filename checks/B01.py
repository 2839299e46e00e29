"""B01: the benchmark runner gives the method and the metrics exactly the rows, labels, views, graph and augmented samples
the configured split names."""
import copy
from dataclasses import replace

import numpy as np

from vf import benchgen as bg
from vf import benchprobe as bp
from vf.core import Module, short

M = Module(
    "B01",
    rule="Each case writes a configuration (generated split, labelling, preprocessing, views, graph, augmentation, metrics, caches on or off), "
    "injects a generated data set at the data source and calls bench.main.run_experiment. A registered probe method records everything it "
    "is handed; real methods are compared with direct use. Expected data are staged by the library's own public calls without the runner. "
    "Non-trivial: runs that finished and whose recorded inputs and reported metrics were compared, with both labelled and held-out rows.",
    preload=["bench.main", "modssc.preprocess", "modssc.views", "modssc.graph", "torch", "sklearn"],
)


def eq(a, b, tol=2e-5):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(eq(a[k], b[k], tol) for k in a)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object or a.dtype.kind in "US":
        return a.tolist() == b.tolist()
    return bool(np.allclose(a.astype(np.float64), b.astype(np.float64), rtol=tol, atol=tol, equal_nan=True))


def staged(c, cfg, ds, root):
    try:
        return bg.stage(cfg, ds, root), None
    except Exception as e:  # noqa: BLE001
        return None, e


def finished(c, code, new, st, exc, what):
    """The run's report, or None when it was rightly refused."""
    if st is None:
        c.check(code != 0, what + " refused", lambda: f"a configuration the library refuses ({short(exc)}) was reported as a success")
        c.count("refused_by_library")
        return None
    c.check(len(new) == 1, what + " one run folder", f"{len(new)} run folders")
    if not new or not (new[0] / "run.json").exists():
        c.fail(what + " report", f"no run.json; code {short(code)}")
        return None
    rep = bg.report(new[0])
    c.check(code == 0 and rep["run"]["status"] == "success", what + " succeeds", lambda: f"run failed: {short(code)} {rep.get('error')} cfg={short(rep['config'])}")
    return rep if rep["run"]["status"] == "success" else None


def check_metrics(c, what, cfg, rep, st, log, salt, classes):
    ev = [e for e in log if e["ev"] == "predict"]
    want = {s: bg.rows(st["X"][st["refs"].get(s, "train")], st["idx"][s]) for s in cfg["evaluation"]["report_splits"]}
    for e in ev:
        c.check(any(eq(e["X"], w) for w in want.values()), what + " evaluated rows", "the method was asked to predict rows that are no reported split's rows")
    c.check(set(rep["metrics"]) == set(want), what + " reported splits", f"{sorted(rep['metrics'])} vs {sorted(want)}")
    for s, w in want.items():
        got = [e for e in ev if eq(e["X"], w)]
        c.check(bool(got), what + " split predicted", f"split {s} was never predicted on its own rows")
        yt = bg.y1(bg.rows(st["y"][st["refs"].get(s, "train")], st["idx"][s]))
        yp = classes[bp.row_codes(got[0]["X"], len(classes), salt)] if len(yt) else yt
        for m in cfg["evaluation"]["metrics"]:
            c.check(bg.close(rep["metrics"][s][m], bg.metric(m, yt, yp)), what + " metric value",
                    lambda s=s, m=m, yt=yt, yp=yp: f"{s}/{m}: reported {rep['metrics'][s][m]}, own {bg.metric(m, yt, yp)} (labels {sorted(set(yt.tolist()))}, classes {classes.tolist()})")
        c.count("split_metrics_checked")


def check_report_identity(c, what, cfg, rep, st):
    for s, v in st["seed"].items():
        a = rep["artifacts"].get(s)
        if a is not None and s in cfg and (s != "graph" or a.get("source") != "dataset"):
            c.check(a.get("seed") == v, what + " stage seed", f"{s}: {a.get('seed')} expected {v}")
    c.check(rep["artifacts"]["sampling"]["split_fingerprint"] == st["res"].split_fingerprint, what + " split fingerprint", "the reported split is another split")
    c.check(rep["run"]["seed"] == cfg["run"]["seed"], what + " run seed", str(rep["run"]["seed"]))


def expected_aug(cfg, st, X_u, idx_u):
    from modssc.data_augmentation.api import build_strategy
    from modssc.data_augmentation.plan import AugmentationPlan, StepConfig
    from modssc.data_augmentation.types import AugmentationContext

    a = cfg["augmentation"]
    mk = lambda p: AugmentationPlan(steps=tuple(StepConfig(op_id=s["id"], params=dict(s["params"])) for s in p["steps"]), modality=a["modality"])
    strat = build_strategy(weak=mk(a["weak"]), strong=mk(a["strong"]))
    w, s = [], []
    for i, sid in enumerate(idx_u):
        x = X_u[i]
        ow, os_ = strat.apply(x, ctx=AugmentationContext(seed=st["seed"]["augmentation"], sample_id=int(sid), epoch=0, modality=a["modality"]))
        w.append(np.asarray(ow)), s.append(np.asarray(os_))
    return w, s


@M.scenario(quick=120, thorough=900)
def inductive_rows(c):
    with bg.sandbox(c) as root, bp.registered() as log:
        w, ds = bg.world(c, kinds=("tab", "tab", "text", "image", "image"))
        torch = c.chance(0.3)
        cfg = bg.base(c, root, w, params={"a": c.py.randint(0, 9), "extra": {"z": c.pick([0, 1])}}, torch=torch)
        conv = not torch and c.chance(0.7 if np.asarray(ds.train.X).dtype == np.uint8 else 0.25)
        if conv:
            cfg["method"]["params"]["backend"] = "torch"
        nd = 2 if w["kind"] != "image" or any(s["id"] == "core.ensure_2d" for s in cfg["preprocess"]["plan"]["steps"]) else 4
        bytes_ = np.asarray(ds.train.X).dtype == np.uint8
        if c.chance(0.5) and not bytes_:
            cfg["augmentation"] = bg.aug_plans(c, w, nd)
        if w["kind"] in ("tab", "image") and not torch and c.chance(0.1):
            cfg["preprocess"]["plan"]["output_key"] = "raw.X"
            nd = np.ndim(ds.train.X)
            cfg.pop("augmentation", None)
        bg.seeds(c, cfg)
        st, exc = staged(c, cfg, ds, root)
        if st is not None and conv and bytes_ and np.asarray(st["X"]["train"]).dtype == np.uint8:
            # bytes become floats in [0, 1] on their way to a torch method
            st["X"] = {k: None if v is None else np.asarray(v).astype(np.float32) / 255 for k, v in st["X"].items()}
            c.count("byte_images_scaled")
        if st is not None and not len(st["idx"]["train_labeled"]):
            return c.count("no_labelled_rows")
        for attempt in range(2 if cfg["preprocess"]["cache"] else 1):
            log.clear()
            code, new = bg.run(cfg, ds, root)
            what = "inductive"
            rep = finished(c, code, new, st, exc, what)
            if rep is None:
                return
            fits = [e for e in log if e["ev"] == "fit"]
            c.check(len(fits) == 1, what + " one fit", f"{len(fits)} fits")
            f = fits[0]
            il, iu = st["idx"]["train_labeled"], st["idx"]["train_unlabeled"]
            X = st["X"]["train"]
            c.check(eq(f["X_l"], bg.rows(X, il)), what + " labelled rows", "X_l is not the labelled rows of the split")
            c.check(eq(f["y_l"], bg.rows(st["y"]["train"], il)), what + " labels", lambda: f"y_l {short(f['y_l'])} expected {short(bg.rows(st['y']['train'], il))}")
            c.check(eq(f["X_u"], bg.rows(X, iu)), what + " unlabelled rows", "X_u is not the unlabelled rows of the split")
            c.check(eq(f["meta"].get("idx_u"), iu), what + " unlabelled ids", "meta idx_u")
            c.check(f["meta"].get("ulb_size") == len(bg.y1(st["y"]["train"])), what + " ulb_size", str(f["meta"].get("ulb_size")))
            c.check(f["torch"] == (torch or conv), what + " backend of the rows", f"torch rows: {f['torch']}, configured {torch or conv}")
            c.check(f["seed"] == bg.derive(cfg["run"]["seed"], "method"), what + " method seed", str(f["seed"]))
            c.check(f["spec"].a == cfg["method"]["params"]["a"] and f["spec"].extra == cfg["method"]["params"]["extra"], what + " params", str(f["spec"]))
            if "augmentation" in cfg:
                Xu = X[iu] if not hasattr(X, "detach") else X[np.asarray(iu)]
                ew, es = expected_aug(cfg, st, Xu, iu)
                for name, got, want in (("X_u_w", f["X_u_w"], ew), ("X_u_s", f["X_u_s"], es)):
                    ok = got is not None and len(got) == len(want) and all(eq(got[i], want[i], 1e-4) for i in range(len(want)))
                    c.check(ok, what + " augmented rows " + name, lambda name=name, got=got, want=want: f"{name} is not the configured augmentation of each unlabelled row (shape {np.shape(got)})")
                c.count("augmented_rows", len(iu))
            else:
                c.check(f["X_u_w"] is None and f["X_u_s"] is None, what + " no augmentation", "augmented rows without an augmentation section")
            y = bg.y1(f["y_l"])
            check_metrics(c, what, cfg, rep, st, log, bp.salt_of(f["spec"], f["seed"]), np.unique(y))
            check_report_identity(c, what, cfg, rep, st)
            cfg["run"]["name"] = "again"
        c.nontrivial((w["kind"], w["labels"], w["official"], torch, conv, "augmentation" in cfg, cfg["preprocess"].get("fit_on")))


@M.scenario(quick=75, thorough=500)
def graph_rows(c):
    """Inductive methods on a graph data set: node rows and, with sparse adjacency, induced subgraphs with their weights."""
    with bg.sandbox(c) as root, bp.registered() as log:
        w, ds = bg.world(c, kinds=("graph",), labels=("int", "int", "gap"))
        cfg = bg.base(c, root, w, params={"a": 1})
        sparse = c.chance(0.7)
        if sparse and c.chance(0.4):  # the source itself delivers a weighted graph with its node features
            e = np.asarray(ds.train.edges)
            xd = {"x": np.asarray(ds.train.X), "edge_index": e, "edge_weight": c.rng.random(e.shape[1]).astype(np.float32)}
            if c.chance(0.6):
                xd["edge_attr"] = c.rng.normal(size=(e.shape[1], 2)).astype(np.float32)
            if c.chance(0.4):
                xd["edge_kind"] = [f"k{i}" for i in range(e.shape[1])]
            if c.chance(0.4):
                xd["node_id"] = np.arange(len(ds.train.y)) * 10
            ds = replace(ds, train=replace(ds.train, X=xd))
            cfg["preprocess"]["plan"]["steps"] = [{"id": "core.copy_raw"}]
        elif sparse:
            st_ = cfg["preprocess"]["plan"]["steps"] = [{"id": "core.copy_raw"}]
            wt = c.pick([None, "attach"])
            if wt == "attach":
                st_.append({"id": "graph.attach_edge_weight", "params": {"weight": 0.5}})
            st_.append({"id": "graph.sparse_adjacency"})
            if c.chance(0.5):
                st_.append({"id": "core.to_torch"})
        bg.seeds(c, cfg)
        st, exc = staged(c, cfg, ds, root)
        if st is not None and not len(st["idx"]["train_labeled"]):
            return c.count("no_labelled_rows")
        code, new = bg.run(cfg, ds, root)
        rep = finished(c, code, new, st, exc, "graph")
        if rep is None:
            return
        f = [e for e in log if e["ev"] == "fit"][0]
        X = st["X"]["train"]
        il, iu = st["idx"]["train_labeled"], st["idx"]["train_unlabeled"]
        c.check(eq(f["y_l"], bg.rows(st["y"]["train"], il)), "graph labels", "labels of other nodes")
        c.check(eq(f["meta"].get("idx_u"), iu), "graph unlabelled ids", "idx_u")
        for name, got, idx in (("X_l", f["X_l"], il), ("X_u", f["X_u"], iu)):
            if not isinstance(X, dict):
                c.check(eq(got, bg.rows(X, idx)), "graph rows", f"{name} is not the rows of the split")
                continue
            g = bp.deep_np(X)
            c.check(eq(got["x"], g["x"][idx]), "graph node rows", f"{name}: node features of other nodes")
            want = sub(g, idx)
            c.check(sub_edges(got, range(len(idx))) == want, "graph induced edges",
                    lambda name=name, got=got, want=want: f"{name}: edges {short(sub_edges(got, range(len(got['x']))))} expected {short(want)}")
            if "node_id" in g:
                c.check(eq(got["node_id"], g["node_id"][idx]), "graph node fields", f"{name}: node ids of other nodes")
            pos = set(map(int, idx))
            kept = [j for j, (a, b) in enumerate(np.asarray(g["edge_index"]).T) if int(a) in pos and int(b) in pos]
            if "edge_attr" in g:
                ge = np.asarray(got["edge_index"]).T
                place = {int(v): i for i, v in enumerate(idx)}
                mine = sorted((place[int(g["edge_index"][0][j])], place[int(g["edge_index"][1][j])], *np.round(g["edge_attr"][j], 4).tolist()) for j in kept)
                c.check(len(got["edge_attr"]) == len(ge) and sorted((int(a), int(b), *np.round(t, 4).tolist()) for (a, b), t in zip(ge, got["edge_attr"])) == mine,
                        "graph edge fields", f"{name}: edge_attr is not the kept edges' ({np.shape(got['edge_attr'])} for {len(kept)} edges)")
            if "edge_kind" in g:
                c.check(sorted(list(got["edge_kind"])) == sorted([g["edge_kind"][j] for j in kept]), "graph edge fields", f"{name}: edge_kind is not the kept edges'")
            c.count("subgraph_edges", len(want))
        check_metrics_graph(c, cfg, rep, st, log, f)
        c.nontrivial((sparse, isinstance(X, dict) and sorted(X), w["labels"]))


def sub(g, idx):
    pos = {int(v): i for i, v in enumerate(idx)}
    ei = np.asarray(g["edge_index"])
    wt = g.get("edge_weight")
    return sorted((pos[int(a)], pos[int(b)], None if wt is None else round(float(wt[j]), 5)) for j, (a, b) in enumerate(ei.T) if int(a) in pos and int(b) in pos)


def sub_edges(got, ids):
    ei = np.asarray(got["edge_index"])
    wt = got.get("edge_weight")
    if wt is not None and len(wt) != ei.shape[1]:
        return f"{len(wt)} weights for {ei.shape[1]} edges"
    return sorted((int(a), int(b), None if wt is None else round(float(wt[j]), 5)) for j, (a, b) in enumerate(ei.T))


def check_metrics_graph(c, cfg, rep, st, log, f):
    X = bp.deep_np(st["X"]["train"])
    classes = np.unique(bg.y1(f["y_l"]))
    salt = bp.salt_of(f["spec"], f["seed"])
    for s in cfg["evaluation"]["report_splits"]:
        idx = st["idx"][s]
        xs = (X["x"] if isinstance(X, dict) else X)[idx]
        hit = [e for e in log if e["ev"] == "predict" and eq(e["X"]["x"] if isinstance(e["X"], dict) else e["X"], xs)]
        c.check(bool(hit), "graph split predicted", f"split {s} was not predicted on its own nodes")
        if isinstance(X, dict):
            c.check(sub_edges(hit[0]["X"], idx) == sub(X, idx), "graph evaluated edges", f"split {s}: edges of the evaluated subgraph")
        yt = bg.y1(bg.rows(st["y"]["train"], idx))
        yp = classes[bp.row_codes(xs, len(classes), salt)] if len(yt) else yt
        for m in cfg["evaluation"]["metrics"]:
            c.check(bg.close(rep["metrics"][s][m], bg.metric(m, yt, yp)), "graph metric value", f"{s}/{m}")


@M.scenario(quick=90, thorough=700)
def transductive_rows(c):
    with bg.sandbox(c) as root, bp.registered() as log:
        w, ds = bg.world(c, kinds=("tab", "graph", "graph", "text"), labels=("int",), tiny=True)
        twin = c.chance(0.4) and w["official"]
        if w["kind"] == "graph" and c.chance(0.5):
            e = np.asarray(ds.train.edges)
            e = e.T.copy() if c.chance(0.5) and e.shape[1] > 2 else e
            if c.chance(0.5):
                e = {"edge_index": e, "edge_weight": c.rng.random(np.asarray(ds.train.edges).shape[1]).astype(np.float32)}
            ds = replace(ds, train=replace(ds.train, edges=e))
        cfg = bg.base(c, root, w, kind="transductive", params={"a": 2})
        bg.seeds(c, cfg)
        runs = [cfg]
        if twin:
            other = copy.deepcopy(cfg)
            pol = other["sampling"]["plan"]["policy"]
            pol["respect_official_test"] = not pol["respect_official_test"]
            runs.append(other)
        for cfg in runs:
            cfg["run"]["name"] = "r%d" % runs.index(cfg)
            st, exc = staged(c, cfg, ds, root)
            if st is not None and not len(st["idx"]["train_labeled"]):
                c.count("no_labelled_rows")
                continue
            log.clear()
            code, new = bg.run(cfg, ds, root)
            rep = finished(c, code, new, st, exc, "transductive")
            if rep is None:
                continue
            judge_transductive(c, cfg, st, rep, log, ds, w)
        c.nontrivial((w["kind"], w["official"], twin, "graph" in cfg, cfg["preprocess"]["cache"]))


def judge_transductive(c, cfg, st, rep, log, ds, w):
    from modssc.graph.construction.api import build_graph
    from modssc.graph.specs import GraphBuilderSpec

    f = [e for e in log if e["ev"] == "fit"][0]
    use_test = st["refs"].get("test") == "test"
    c.check(rep["protocol"]["use_test_split"] == use_test, "transductive test split", "protocol")
    X = np.concatenate([np.asarray(st["X"]["train"]), np.asarray(st["X"]["test"])]) if use_test else np.asarray(st["X"]["train"])
    y = np.concatenate([np.asarray(st["pre"].dataset.train.y), np.asarray(st["pre"].dataset.test.y)]) if use_test else np.asarray(st["pre"].dataset.train.y)
    n, off = len(X), len(st["X"]["train"]) if use_test else 0
    c.check(eq(f["X"], X), "transductive nodes", lambda: f"node features: shape {f['X'].shape}, expected {X.shape}")
    pos = {k: np.asarray(v) + (off if k == "test" and use_test else 0) for k, v in st["idx"].items()}
    for name, k in (("train_mask", "train_labeled"), ("labeled_mask", "train_labeled"), ("unlabeled_mask", "train_unlabeled"), ("val_mask", "val"), ("test_mask", "test")):
        got = np.flatnonzero(f["masks"][name])
        c.check(sorted(got.tolist()) == sorted(pos[k].tolist()) and len(f["masks"][name]) == n, "transductive masks " + name, lambda got=got, k=k: f"{short(got)} expected {short(pos[k])}")
    c.check(bool(np.all(f["y"][pos["train_labeled"]] == y[pos["train_labeled"]])), "transductive labels", "the labelled nodes' labels differ")
    c.check(bool(np.all(f["y"][pos["train_unlabeled"]] == -1)), "transductive hidden labels", "an unlabelled node carries its label")
    if cfg.get("graph", {}).get("enabled"):
        GX = X
        if cfg["graph"]["spec"].get("feature_field") == "raw.X":
            GX = np.concatenate([np.asarray(st["ds"].train.X), np.asarray(st["ds"].test.X)]) if use_test else np.asarray(st["ds"].train.X)
            c.count("graphs_on_raw_features")
        g = build_graph(GX, spec=GraphBuilderSpec.from_dict(copy.deepcopy(cfg["graph"]["spec"])), seed=st["seed"]["graph"], cache=False)
        want_e, want_w = np.asarray(g.edge_index), g.edge_weight
    else:
        want_e, want_w = ds.train.edges, None
        if isinstance(want_e, dict):
            want_e, want_w = want_e["edge_index"], want_e["edge_weight"]
            c.count("weighted_source_graphs")
        want_e = np.asarray(want_e)
        want_e = want_e.T if want_e.shape[0] != 2 else want_e
    c.check(f["n_nodes"] == n, "transductive graph size", f"graph over {f['n_nodes']} nodes, {n} nodes configured")
    c.check(eq(f["edge_index"], want_e), "transductive graph edges", "the graph is not built on the configured features")
    if want_w is not None:
        c.check(f["edge_weight"] is not None and eq(f["edge_weight"], want_w), "transductive graph weights", "edge weights")
    c.check(f["seed"] == bg.derive(cfg["run"]["seed"], "method"), "transductive method seed", str(f["seed"]))
    k = int(f["y"][pos["train_labeled"]].max()) + 1
    pred = bp.row_codes(f["X"], k, bp.salt_of(f["spec"], f["seed"]))
    c.check(set(rep["metrics"]) == set(cfg["evaluation"]["report_splits"]), "transductive reported splits", str(sorted(rep["metrics"])))
    for s in cfg["evaluation"]["report_splits"]:
        for m in cfg["evaluation"]["metrics"]:
            want = bg.metric(m, y[pos[s]], pred[pos[s]])
            c.check(bg.close(rep["metrics"][s][m], want), "transductive metric value", lambda s=s, m=m, want=want: f"{s}/{m}: reported {rep['metrics'][s][m]}, own {want}")
        c.count("split_metrics_checked")
    check_report_identity(c, "transductive", cfg, rep, st)


def ind_methods(c):
    knn = {"classifier_id": "knn", "classifier_backend": c.pick(["numpy", "sklearn", "torch"]), "classifier_params": {"k": c.pick([1, 3])}}
    return c.pick([
        ("supervised", knn), ("pseudo_label", {**knn, "max_iter": 2}), ("self_training", {**knn, "max_iter": 2}),
        ("setred", {**knn, "max_iter": 1}), ("tri_training", {**knn, "max_iter": 2}),
        ("supervised", {"classifier_id": "logreg", "classifier_backend": "torch", "classifier_params": {"max_epochs": 3}}),
        ("democratic_co_learning", {"max_iter": 2, "classifier_specs": None}),
    ])


@M.scenario(quick=75, thorough=500)
def real_methods(c):
    """What is reported is what direct use of the method on those rows gives."""
    from modssc.inductive.registry import get_method_class
    from modssc.inductive.types import DeviceSpec, InductiveDataset

    with bg.sandbox(c) as root:
        w, ds = bg.world(c, kinds=("tab", "text"), n=c.py.randint(40, 80))
        mid, params = ind_methods(c)
        params = {k: v for k, v in params.items() if v is not None}
        cfg = bg.base(c, root, w, method=mid, params=params)
        if mid == "democratic_co_learning":
            cfg["method"]["params"] = {}
        bg.seeds(c, cfg)
        st, exc = staged(c, cfg, ds, root)
        if st is None or not len(st["idx"]["train_labeled"]) or not len(st["idx"]["train_unlabeled"]):
            return c.count("unusable_split")
        il, iu = st["idx"]["train_labeled"], st["idx"]["train_unlabeled"]
        back = params.get("classifier_backend")
        cv = (lambda a: as_torch(a)) if back == "torch" else (lambda a: a)
        X = st["X"]["train"]
        cls = get_method_class(mid)
        spec = type(cls().spec)(**{**vars(cls().spec), **cfg["method"]["params"]})
        try:
            m = cls(spec)
            yl = bg.rows(st["y"]["train"], il).astype(np.int64)
            m.fit(InductiveDataset(X_l=cv(bg.rows(X, il)), y_l=cv(yl), X_u=cv(bg.rows(X, iu)), meta={"idx_u": cv(iu), "ulb_size": len(X)}),
                  device=DeviceSpec(device="cpu", dtype="float32"), seed=bg.derive(cfg["run"]["seed"], "method"))
            direct = {}
            for s in cfg["evaluation"]["report_splits"]:
                r = st["refs"].get(s, "train")
                if len(st["idx"][s]):
                    direct[s] = np.asarray(bp.to_np(m.predict(cv(bg.rows(st["X"][r], st["idx"][s])))))
                else:
                    direct[s] = np.zeros(0, int)
        except Exception as e:  # noqa: BLE001
            exc2 = e
            code, new = bg.run(cfg, ds, root)
            c.check(code != 0, "real method refused", lambda: f"direct use fails ({short(exc2)}) and the run reports success")
            return c.count("refused_by_method")
        if any(not len(st["idx"][s]) for s in cfg["evaluation"]["report_splits"]):
            return c.count("empty_split")
        code, new = bg.run(cfg, ds, root)
        rep = finished(c, code, new, st, None, "real method " + mid)
        if rep is None:
            return
        for s, yp in direct.items():
            yt = bg.y1(bg.rows(st["y"][st["refs"].get(s, "train")], st["idx"][s]))
            for k in cfg["evaluation"]["metrics"]:
                want = bg.metric(k, yt, yp)
                c.check(bg.close(rep["metrics"][s][k], want), "real method metric " + mid,
                        lambda s=s, k=k, want=want, yp=yp, yt=yt: f"{mid} {back}: {s}/{k} reported {rep['metrics'][s][k]}, direct use gives {want}; "
                        f"labelled {sorted(set(yl.tolist()))} predicted {sorted(set(yp.tolist()))} true {sorted(set(yt.tolist()))}")
        c.count("splits_compared", len(direct))
        c.nontrivial((mid, back, w["labels"], w["kind"], len(set(yl.tolist())) < w["k"]))


def as_torch(a):
    import torch

    a = np.asarray(a)
    return torch.as_tensor(a.astype(np.float32) if a.dtype == np.float64 else a)


@M.scenario(quick=45, thorough=300)
def views_rows(c):
    """Co-training gets each view's own rows for the split, and is evaluated on the views of the reported split."""
    from modssc.views import generate_views
    from modssc.views.plan import ColumnSelectSpec, ViewsPlan, ViewSpec

    with bg.sandbox(c) as root, bp.registered() as log:
        w, ds = bg.world(c, kinds=("tab",), labels=("int", "gap", "str"))
        real = c.chance(0.5)
        cfg = bg.base(c, root, w, plain=True, method="co_training" if real else "vf_probe",
                      params={"classifier_id": "knn", "classifier_backend": "numpy", "classifier_params": {"k": 1}, "max_iter": 2} if real else {"a": 3})
        frac = c.pick([0.4, 0.5])
        cfg["views"] = {"plan": {"views": [{"name": "v1", "columns": {"mode": "random", "fraction": frac, "seed_offset": c.py.randint(0, 3)}},
                                           {"name": "v2", "columns": {"mode": "complement", "complement_of": "v1"}}]}}
        if c.chance(0.4):
            cfg["views"]["plan"]["views"][0]["preprocess"] = {"steps": [{"id": "tabular.standard_scaler"}]}
            cfg["preprocess"].setdefault("fit_on", "train_labeled")
        bg.seeds(c, cfg)
        st, exc = staged(c, cfg, ds, root)
        if st is None or not len(st["idx"]["train_labeled"]) or not len(st["idx"]["train_unlabeled"]) or any(not len(st["idx"][s]) for s in cfg["evaluation"]["report_splits"]):
            return c.count("unusable_split")
        vs = []
        for v in cfg["views"]["plan"]["views"]:
            col = v["columns"]
            vs.append(ViewSpec(name=v["name"], columns=ColumnSelectSpec(**col), preprocess=bg._pre_plan(v["preprocess"]) if "preprocess" in v else None))
        vw = generate_views(st["pre"].dataset, plan=ViewsPlan(views=tuple(vs)), seed=st["seed"]["views"], cache=False, fit_indices=st["fit"])
        il, iu = st["idx"]["train_labeled"], st["idx"]["train_unlabeled"]
        seen = []
        if real:
            from modssc.inductive.methods import co_training as ct

            CT = ct.CoTrainingMethod
            old = CT.fit, CT.predict_proba, CT.predict

            def fit(self, data, **k):
                seen.append(("fit", bp.deep_np(dict(data.views)), bp.deep_np(data.y_l)))
                return old[0](self, data, **k)

            def asked(which):
                def call(self, data):
                    if not busy:
                        busy.append(1)
                        try:
                            seen.append(("pred", bp.deep_np(dict(data.views)), np.asarray(bp.to_np(old[2](self, data)))))
                        finally:
                            busy.clear()
                    return old[which](self, data)
                return call

            busy = []
            CT.fit, CT.predict_proba, CT.predict = fit, asked(1), asked(2)
        try:
            code, new = bg.run(cfg, ds, root)
        finally:
            if real:
                CT.fit, CT.predict_proba, CT.predict = old
        rep = finished(c, code, new, st, exc, "views")
        if rep is None:
            return
        if real:
            got, yl = [(s[1], s[2]) for s in seen if s[0] == "fit"][0]
        else:
            f = [e for e in log if e["ev"] == "fit"][0]
            got, yl = f["views"], f["y_l"]
        c.check(eq(yl, bg.rows(st["y"]["train"], il)), "views labels", "labels")
        c.check(set(got) == {"v1", "v2"}, "views names", str(sorted(got)))
        for name, d in vw.views.items():
            for part, idx in (("X_l", il), ("X_u", iu)):
                c.check(eq(got[name][part], bg.rows(d.train.X, idx)), "views rows " + part, f"view {name} {part} is not the view's rows of the split")
        if real:
            preds = [s for s in seen if s[0] == "pred"]
            for s in cfg["evaluation"]["report_splits"]:
                r = st["refs"].get(s, "train")
                want = {n: {"X": bg.rows((d.train if r == "train" else d.test).X, st["idx"][s])} for n, d in vw.views.items()}
                hit = [p for p in preds if eq(p[1], want)]
                c.check(bool(hit), "views evaluated rows", f"split {s} was not predicted on its own views")
                yt = bg.y1(bg.rows(st["y"][r], st["idx"][s]))
                yp = hit[0][2]
                for m in cfg["evaluation"]["metrics"]:
                    c.check(bg.close(rep["metrics"][s][m], bg.metric(m, yt, yp)), "views metric", lambda s=s, m=m: f"{s}/{m}: reported {rep['metrics'][s][m]} own {bg.metric(m, yt, yp)}")
        c.nontrivial((real, w["labels"], w["official"], "preprocess" in cfg["views"]["plan"]["views"][0]))


BUNDLES = {"model_bundle": 0, "student_bundle": 0, "teacher_bundle": 1, "model_bundle_1": 0, "model_bundle_2": 1, "pretrain_bundle": 0, "finetune_bundle": 1, "shared_bundle": 0}


def state(b):
    return {k: v.detach().cpu().numpy().copy() for k, v in b.model.state_dict().items()}


@M.scenario(quick=60, thorough=400)
def deep_inputs(c):
    """Deep methods are handed the split's rows, one weak and one strong version of each unlabelled row (CoMatch: a second
    strong one), and freshly seeded models."""
    from modssc.inductive.deep.bundle_factories.factory import build_torch_bundle_from_classifier as build
    from modssc.inductive.registry import get_method_class

    with bg.sandbox(c) as root:
        w, ds = bg.world(c, kinds=("tab", "text"), labels=("int",))
        mid = c.pick(["comatch", "meta_pseudo_labels", "deep_co_training", "simclr_v2", "trinet"] + bg.DEEP)
        cfg = bg.base(c, root, w, torch=c.chance(0.4))
        cfg["method"] = bg.deep_method(c, mid)
        cfg["sampling"]["plan"]["labeling"] = {"mode": "per_class", "value": 3, "strategy": "balanced", "min_per_class": 1}
        cfg["augmentation"] = bg.aug_plans(c, w, 2)
        bg.seeds(c, cfg)
        st, exc = staged(c, cfg, ds, root)
        if st is None or not len(st["idx"]["train_unlabeled"]) or not len(st["idx"]["train_labeled"]):
            return c.count("unusable_split")
        cls = get_method_class(mid)
        seen, old = [], cls.fit

        class Enough(Exception):
            pass

        def fit(self, data, *, device, seed=0, **k):
            seen.append({"X_l": bp.deep_np(data.X_l), "y_l": bp.deep_np(data.y_l), "X_u": bp.deep_np(data.X_u), "X_u_w": bp.deep_np(data.X_u_w), "X_u_s": bp.deep_np(data.X_u_s),
                         "views": bp.deep_np(dict(data.views or {})), "seed": seed, "X_t": data.X_l,
                         "bundles": {f: state(getattr(self.spec, f)) for f in BUNDLES if getattr(self.spec, f, None) is not None},
                         "heads": [state(b) for b in getattr(self.spec, "head_bundles", None) or ()]})
            raise Enough("recorded")

        cls.fit = fit
        try:
            code, new = bg.run(cfg, ds, root)
        finally:
            cls.fit = old
        if not seen:
            return c.count("refused")
        f, il, iu = seen[0], st["idx"]["train_labeled"], st["idx"]["train_unlabeled"]
        what = "deep "
        X = st["X"]["train"]
        c.check(eq(f["X_l"], bg.rows(X, il)) and eq(f["X_u"], bg.rows(X, iu)) and eq(bg.y1(f["y_l"]), bg.y1(bg.rows(st["y"]["train"], il))), what + "rows", f"{mid}: not the split's rows or labels")
        Xu = bg.rows(X, iu)
        ew, es = expected_aug(cfg, st, X[np.asarray(iu)] if hasattr(X, "detach") else Xu, iu)
        second = dict(st, seed=dict(st["seed"], augmentation=st["seed"]["augmentation"] + 1))
        pairs = [("X_u_w", f["X_u_w"], ew), ("X_u_s", f["X_u_s"], es)]
        if mid == "comatch":
            c.check(set(f["views"]) == {"X_u_s_1"}, "comatch views", str(sorted(f["views"])))
            pairs.append(("X_u_s_1", f["views"]["X_u_s_1"], strong_only(cfg, second, X[np.asarray(iu)] if hasattr(X, "detach") else Xu, iu)))
        for name, got, want in pairs:
            ok = got is not None and len(got) == len(want) and all(eq(got[i], want[i], 1e-4) for i in range(len(want)))
            c.check(ok, what + "augmented rows " + name, f"{mid}: {name} is not the configured augmentation of each unlabelled row (shape {np.shape(got)})")
        c.count("augmented_rows", len(iu))
        ms = bg.derive(cfg["run"]["seed"], "method")
        c.check(f["seed"] == ms, what + "seed", f"{mid}: {f['seed']}")
        m = cfg["method"]["model"]
        for name, got in f["bundles"].items():
            ref = build(classifier_id=m["classifier_id"], classifier_backend="torch", classifier_params=m["classifier_params"], sample=f["X_t"], num_classes=len(np.unique(bg.y1(f["y_l"]))),
                        seed=ms + BUNDLES[name], ema=bool(m["ema"]))
            c.check(eq(got, state(ref), 0), what + "model", f"{mid}: {name} is not the configured model built from the method seed")
        for i, a in enumerate(f["heads"]):
            for b in f["heads"][:i]:
                c.check(not eq(a, b, 0), what + "heads", f"{mid}: two heads start from the same weights")
        c.nontrivial((w["kind"], mid, "torch" if any(s["id"] == "core.to_torch" for s in cfg["preprocess"]["plan"]["steps"]) else "numpy"))


def strong_only(cfg, st, X_u, idx_u):
    """The strong plan applied to each row on its own generator."""
    from modssc.data_augmentation.api import build_pipeline
    from modssc.data_augmentation.plan import AugmentationPlan, StepConfig
    from modssc.data_augmentation.types import AugmentationContext

    a = cfg["augmentation"]
    pipe = build_pipeline(AugmentationPlan(steps=tuple(StepConfig(op_id=s["id"], params=dict(s["params"])) for s in a["strong"]["steps"]), modality=a["modality"]))
    return [np.asarray(pipe(X_u[i], ctx=AugmentationContext(seed=st["seed"]["augmentation"], sample_id=int(sid), epoch=0, modality=a["modality"]))) for i, sid in enumerate(idx_u)]


@M.scenario(quick=36, thorough=250)
def held_out_labels(c):
    """Other labels on the held-out rows change nothing but the metrics of the split they belong to."""
    with bg.sandbox(c) as root, bp.registered() as log:
        kind = c.pick(["inductive", "transductive"])
        w, ds = bg.world(c, kinds=("tab", "text"), labels=("int",), official=True)
        real = c.chance(0.5)
        if kind == "inductive":
            m, p = ("pseudo_label", {"classifier_id": "knn", "classifier_backend": "numpy", "classifier_params": {"k": 3}, "max_iter": 2}) if real else ("vf_probe", {"a": 1})
        else:
            m, p = (c.pick([("label_propagation", {}), ("gcn", {"max_epochs": 4, "hidden_dim": 4}), ("label_spreading", {})])) if real else ("vf_tprobe", {"a": 1})
        cfg = bg.base(c, root, w, kind=kind, method=m, params=p, cache=False)
        cfg["sampling"]["plan"]["policy"] = {"respect_official_test": True, "use_official_graph_masks": True, "allow_override_official": False}
        cfg["evaluation"] = {"report_splits": ["train", "val", "test"], "metrics": ["accuracy", "macro_f1"]}
        bg.seeds(c, cfg)
        yt = np.asarray(ds.test.y)
        ds2 = replace(ds, test=replace(ds.test, y=(yt + 1 + c.rng.integers(0, max(w["k"] - 1, 1), size=len(yt))) % w["k"]))
        out = []
        for i, d in enumerate((ds, ds2)):
            log.clear()
            one = copy.deepcopy(cfg)
            one["dataset"]["cache_dir"] = str(root / f"ds{i}")
            one["run"]["name"] = f"t{i}"
            st, exc = staged(c, one, d, root / f"x{i}")
            code, new = bg.run(one, d, root)
            rep = bg.report(new[0]) if new and (new[0] / "run.json").exists() else None
            out.append((st, rep, [copy.copy(e) for e in log]))
        (sa, ra, la), (sb, rb, lb) = out
        if sa is None or ra is None or rb is None or ra["run"]["status"] != "success" or rb["run"]["status"] != "success":
            return c.count("not_comparable")
        if not all(np.array_equal(sa["idx"][k], sb["idx"][k]) for k in sa["idx"]):
            return c.count("split_uses_the_data_identity")
        for s in ("train", "val"):
            for k in ("accuracy", "macro_f1"):
                c.check(bg.close(ra["metrics"][s][k], rb["metrics"][s][k]), "held-out labels leak", f"{m}: {s}/{k} {ra['metrics'][s][k]} became {rb['metrics'][s][k]} with other test labels")
        if not real:
            fa, fb = [e for e in la if e["ev"] == "fit"][0], [e for e in lb if e["ev"] == "fit"][0]
            for k in ("X_l", "y_l", "X_u", "X"):
                if k in fa:
                    c.check(eq(fa[k], fb[k]), "held-out labels change the fit", k)
        c.nontrivial((kind, m, w["kind"]))
