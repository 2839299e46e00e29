"""P06: preprocessing keeps labels attached to their samples under one class numbering for train and test."""
import numpy as np
from modssc.data_loader.types import LoadedDataset, Split
from modssc.preprocess import preprocess
from modssc.preprocess.plan import PreprocessPlan

from vf import gen, ppgen
from vf.core import Module
from vf.ppgen import S

M = Module(
    "P06",
    rule="Label steps run on train and test labels of every kind, with classes missing from or only present in the test part, cached and uncached; "
    "the code-to-class mapping must be one bijection over both parts. Non-trivial: distinct (label kind, class sets, step).",
    preload=["torch", "modssc.preprocess"],
)


@M.scenario(quick=250, thorough=6000)
def encoding(c):
    n, m = c.py.randint(4, 40), c.py.randint(1, 15)
    y, kind = gen.labels(c, n + m)
    ytr, yte = y[:n].copy(), y[n:].copy()
    mode = c.pick(["any", "subset", "single", "extra"])
    cls = np.unique(ytr) if kind != "obj" else np.array(sorted(set(ytr.tolist())), dtype=object)
    if mode == "subset" and len(cls) > 1:
        keep = cls[1:]
        yte = np.array([c.pick(list(keep)) for _ in range(m)], dtype=y.dtype)
    elif mode == "single":
        yte = np.array([cls[-1]] * m, dtype=y.dtype)
    elif mode == "extra" and kind in ("str", "obj"):
        yte = yte.astype(object)
        yte[0] = "class_0b"
    X, T = c.rng.normal(size=(n, 2)), c.rng.normal(size=(m, 2))
    ds = LoadedDataset(train=Split(X=X, y=ytr), test=Split(X=T, y=yte), meta={"modality": "tabular", "dataset_fingerprint": "p06"})
    extra = [S("core.ensure_2d")] if c.chance(0.5) else []
    root = c.tmp()
    which = c.pick(["encode", "encode", "onehot", "numpy"])
    # which, applied uncached, then twice through a cache
    for rnd, kw in enumerate([{"cache": False}, {"cache_dir": str(root)}, {"cache_dir": str(root)}]):
        if which == "encode":
            tail = [S("labels.to_torch")] if c.chance(0.3) else []
            steps = [*extra, S("labels.encode"), *tail]
            r = preprocess(ds, PreprocessPlan(steps=tuple(steps)), **kw)
            a, b = np.asarray(r.dataset.train.y), np.asarray(r.dataset.test.y)
            code = {}
            for lab, k in [*zip(ytr.tolist(), a.tolist()), *zip(yte.tolist(), b.tolist())]:
                c.check(code.setdefault(lab, k) == k, "class-has-two-codes", f"{kind} {mode} round {rnd}: {lab!r} -> {code[lab]} and {k}")
            c.check(len(set(code.values())) == len(code), "two-classes-one-code", f"{kind} {mode} round {rnd}: {code}")
            ntr = len(set(ytr.tolist()))
            c.check(sorted(set(a.tolist())) == list(range(ntr)), "codes-not-contiguous", f"{kind} {mode}: {sorted(set(a.tolist()))}")
            c.check(a.dtype == np.int64 and b.dtype == np.int64, "code-dtype", f"{a.dtype} {b.dtype}")
            classes = r.train_artifacts["labels.classes"]
            c.check(all(classes[k] == lab for lab, k in zip(ytr.tolist(), a.tolist())), "classes-mislabelled", f"{kind} {mode}")
            tc = r.test_artifacts["labels.classes"]
            c.check(all(tc[k] == lab for lab, k in zip(yte.tolist(), b.tolist())), "classes-mislabelled", f"{kind} {mode} test")
        elif which == "onehot":
            if kind in ("str", "obj"):
                return
            u = c.pick([-1, int(cls[0])])
            r = preprocess(ds, PreprocessPlan(steps=(*extra, S("labels.ensure_onehot", unlabeled_value=u))), **kw)
            col = {}
            for art, raw, part in ((r.train_artifacts, ytr, "train"), (r.test_artifacts, yte, "test")):
                H, L = art["labels.y_onehot"], art["labels.is_labeled"]
                c.check(np.array_equal(L, raw != u) and H.shape[0] == len(raw), "onehot-mask", f"{part} {kind} u={u}")
                c.check(np.array_equal(H.sum(axis=1), L.astype(H.dtype)) and set(np.unique(H).tolist()) <= {0.0, 1.0}, "onehot-rows", f"{part} {kind}")
                for i in np.flatnonzero(L):
                    k = int(np.argmax(H[i]))
                    lab = raw[i].item()
                    c.check(col.setdefault(lab, k) == k, "class-has-two-columns", f"{kind} {mode} round {rnd} {part}: {lab!r} -> {col[lab]} and {k}")
            c.check(len(set(col.values())) == len(col), "two-classes-one-column", f"{kind} {mode}: {col}")
        else:
            r = preprocess(ds, PreprocessPlan(steps=(*extra, S("labels.to_numpy"))), **kw)
            c.check(gen.arr_eq(np.asarray(r.dataset.train.y), ytr) and gen.arr_eq(np.asarray(r.dataset.test.y), yte), "labels-changed", f"{kind} {mode} round {rnd}")
    c.nontrivial((which, kind, mode, n, m))


@M.scenario(quick=60, thorough=1500)
def untouched(c):
    """Steps that are not about labels leave y, masks and row order alone."""
    modality = ppgen.MODALITIES[c.index % len(ppgen.MODALITIES)]
    ds, _, _ = ppgen.dataset(c, modality)
    p = ppgen.accepted(c, ds, lambda: ppgen.plan(c, modality))
    p = PreprocessPlan(steps=tuple(s for s in p.steps if not s.step_id.startswith("labels.")), output_key=p.output_key)
    r = ppgen.attempt(lambda: preprocess(ds, p, fit_indices=np.arange(len(ds.train.y)), cache=False))
    if r[0] == "err":
        c.count("rejected_requests")
        return
    out = r[1].dataset
    for a, b in ((out.train, ds.train), (out.test, ds.test)):
        if b is None:
            c.check(a is None, "test-part-appeared", "")
            continue
        c.check(gen.arr_eq(a.y, b.y), "labels-changed", f"{modality} {[s.step_id for s in p.steps]}")
        c.check(gen.arr_eq(a.masks, b.masks), "masks-changed", f"{modality}")
        if modality == "graph" and not any(s.step_id in ("graph.edge_sparsify", "graph.attach_edge_weight") for s in p.steps):
            c.check(gen.arr_eq(a.edges, b.edges), "edges-changed", f"{modality}")
    for k, v in ds.meta.items():
        c.check(out.meta.get(k) == v, "meta-lost", f"{k}")
    c.nontrivial((modality, [s.step_id for s in p.steps]))
