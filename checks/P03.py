"""P03: fitted preprocessing uses only the fit rows of the training part; every output row comes from its own input row."""
from dataclasses import replace

import numpy as np
from modssc.data_loader.types import LoadedDataset, Split
from modssc.preprocess import preprocess

from vf import ppgen
from vf.core import Module

M = Module(
    "P03",
    rule="A request is run again after replacing the content of (a) the test part, (b) training rows outside fit_indices, (c) all labels; the outputs of "
    "all untouched rows must be bit-identical. With replaced fit rows a control counts how often fitted steps react. Non-trivial: distinct (plan, replaced part).",
    preload=["torch", "sklearn.preprocessing", "sklearn.impute", "sklearn.feature_extraction.text", "modssc.preprocess"],
)


def replace_rows(X, rows, fresh):
    if isinstance(X, list):
        out = list(X)
        for i in rows:
            out[i] = fresh[i]
        return out
    out = X.copy()
    if out.dtype.kind == "U":
        out = out.astype(f"<U{max(out.dtype.itemsize // 4, np.asarray(fresh).dtype.itemsize // 4)}")
    for i in rows:
        out[i] = fresh[i]
    return out


def rows_of(v, n):
    """Split a value into its n rows when it is row-indexed, else None."""
    import scipy.sparse as sp
    import torch

    if sp.issparse(v):
        v = v.toarray()
    if isinstance(v, torch.Tensor):
        v = v.numpy()
    if isinstance(v, np.ndarray) and v.dtype.kind == "U":
        v = v.astype(object)  # the width of a string array depends on its longest row
    if isinstance(v, (list, np.ndarray)) and (isinstance(v, list) or v.ndim > 0) and len(v) == n:
        return v
    return None


def same_rows(c, a, b, rows, n, path):
    ra, rb = rows_of(a, n), rows_of(b, n)
    if ra is None or rb is None:
        return ppgen.diff(a, b, path) if not isinstance(a, (list, np.ndarray)) else f"{path}: not one row per sample ({np.shape(a)} for n={n})"
    for i in rows:
        d = ppgen.diff(ra[i], rb[i], f"{path}[{i}]")
        if d:
            return d
    c.count("rows_compared", len(rows))
    return None


FEATURE_KEYS = ("features.X", "raw.X", "tokens.input_ids", "tokens.attention_mask")


@M.scenario(quick=780, thorough=8000)
def leakage(c):
    modality = ["tabular", "mixed", "text", "vision", "audio"][c.index % 5]
    ds, _, shape = ppgen.dataset(c, modality, test=True, n=c.py.randint(8, 24))
    if modality == "audio":
        shape["form"] = "2d" if isinstance(ds.train.X, np.ndarray) and ds.train.X.ndim == 2 else shape["form"]
    p = ppgen.accepted(c, ds, lambda: ppgen.plan(c, modality, 1, 5))
    n, m = len(ds.train.y), len(ds.test.y)
    fit = np.sort(c.rng.choice(n, size=max(3, n // 2), replace=False))
    rest = np.setdiff1d(np.arange(n), fit)
    seed = c.py.randrange(100)

    def run(d, f=fit):
        return ppgen.attempt(lambda: preprocess(d, p, seed=seed, fit_indices=f, cache=False))

    base = run(ds)
    if base[0] == "err":
        c.count("rejected_requests")
        return
    ids = [s.step_id for s in p.steps]
    desc = f"{modality} {[(s.step_id, dict(s.params)) for s in p.steps]} seed={seed}"
    A = ppgen.artifacts(base[1])

    # one row in, one row out
    for part, cnt in (("train", n), ("test", m)):
        X = getattr(base[1].dataset, part).X
        c.check(rows_of(X, cnt) is not None, "row-count", f"{desc}: {part}.X has no row per sample")
        c.check(len(getattr(base[1].dataset, part).y) == cnt, "row-count", f"{desc}: {part}.y")

    def fresh(cnt):
        X = ppgen.make_X(c.rng, modality, cnt, shape)
        if modality == "mixed":  # stay parseable: categorical columns may hold any string, numeric ones any number
            for j in range(0, X.shape[1], 2):
                X[:, j] = [f"new{int(v)}" for v in c.rng.integers(0, 4, cnt)]
        return X

    numeric_as_cat = modality == "mixed"

    # (a) other test content: nothing about the training output may change
    d2 = LoadedDataset(train=ds.train, test=replace(ds.test, X=replace_rows(ds.test.X, range(m), fresh(m))), meta=ds.meta)
    r = run(d2)
    if r[0] == "ok":
        d = ppgen.diff(ppgen.artifacts(r[1])["train"], A["train"])
        c.check(d is None, "test-leaks-into-train", f"{desc}: train{d}")
        c.nontrivial(("test", ids))
        c.count("test_replaced")
    else:
        c.check(numeric_as_cat, "test-content-rejected", f"{desc}: {r[1]}")

    # (b) other non-fit training rows: fit rows and test rows keep their outputs
    if rest.size:
        d3 = LoadedDataset(train=replace(ds.train, X=replace_rows(ds.train.X, rest, fresh(n))), test=ds.test, meta=ds.meta)
        r = run(d3)
        if r[0] == "ok":
            B = ppgen.artifacts(r[1])
            for k in FEATURE_KEYS:
                if k in A["test"] and k in A["train"]:
                    d = same_rows(c, B["test"][k], A["test"][k], range(m), m, f"test.{k}")
                    c.check(d is None, "unfit-rows-leak-into-test", f"{desc}: {d}")
                    d = same_rows(c, B["train"][k], A["train"][k], fit, n, f"train.{k}")
                    c.check(d is None, "unfit-rows-leak-into-others", f"{desc}: {d}")
            c.nontrivial(("rest", ids))
            c.count("unfit_rows_replaced", int(rest.size))
        else:
            c.check(numeric_as_cat, "unfit-content-rejected", f"{desc}: {r[1]}")

    # (b') text in a numeric column of an unfit row: rejected, or without effect on the test rows
    if modality == "mixed" and rest.size and ds.train.X.shape[1] > 1:
        X2 = ds.train.X.copy()
        X2[c.pick(rest.tolist()), c.py.randrange(X2.shape[1])] = c.pick(["many", "n/a?", "1.5", "", None])
        r = run(LoadedDataset(train=replace(ds.train, X=X2), test=ds.test, meta=ds.meta))
        if r[0] == "ok":
            B = ppgen.artifacts(r[1])
            for k in FEATURE_KEYS:
                if k in A["test"] and k in A["train"]:
                    d = same_rows(c, B["test"][k], A["test"][k], range(m), m, f"test.{k}")
                    c.check(d is None, "unfit-rows-leak-into-test", f"{desc} (odd cell): {d}")
                    d = same_rows(c, B["train"][k], A["train"][k], fit, n, f"train.{k}")
                    c.check(d is None, "unfit-rows-leak-into-others", f"{desc} (odd cell): {d}")
            c.count("odd_cells")

    # (c) other labels: features may not change at all
    y2 = ppgen.make_y(c.rng, "str", n, 3)
    d4 = LoadedDataset(train=replace(ds.train, y=y2), test=ds.test, meta=ds.meta)
    r = run(d4)
    if r[0] == "ok":
        B = ppgen.artifacts(r[1])
        for part in ("train", "test"):
            for k in FEATURE_KEYS:
                if k in A[part]:
                    d = ppgen.diff(B[part][k], A[part][k], f"{part}.{k}")
                    c.check(d is None, "labels-leak-into-features", f"{desc}: {d}")
        c.nontrivial(("labels", ids))

    # control: replacing fit rows does change fitted outputs
    d5 = LoadedDataset(train=replace(ds.train, X=replace_rows(ds.train.X, fit, fresh(n))), test=ds.test, meta=ds.meta)
    r = run(d5)
    if r[0] == "ok" and ppgen.diff(ppgen.artifacts(r[1])["test"], A["test"]) is not None:
        c.count("control_fit_rows_matter")


@M.scenario(quick=36, thorough=60)
def grey_batches(c):
    """Grey images (N, H, W): a step gives each image the same result whatever the size of its batch."""
    h, w = c.py.randint(5, 9), c.py.randint(5, 9)
    n, m = c.py.randint(8, 12), [5, 3, 1, 4, 2, 7][c.index % 6]
    X = c.rng.random((n, h, w)).astype(np.float32)
    step = [ppgen.S("vision.ensure_num_channels", num_channels=1), ppgen.S("vision.normalize", mean=[0.5], std=[0.25]),
            ppgen.S("vision.channels_order", order="NHWC"), ppgen.S("vision.resize", height=4, width=6)][c.py.randrange(4)]
    from modssc.preprocess.plan import PreprocessPlan

    plan = PreprocessPlan(steps=(step,), output_key="raw.X")
    ds = LoadedDataset(train=Split(X=X * 255, y=np.arange(n) % 2), test=Split(X=(X * 255)[:m].copy(), y=np.arange(m) % 2), meta={"modality": "vision", "dataset_fingerprint": "g"})
    r = preprocess(ds, plan, cache=False)
    a, b = r.dataset.train.X, r.dataset.test.X
    c.nontrivial((step.step_id, m))
    mech = "grey-batch-taken-for-one-image" if m in (1, 3, 4) else "grey-batch-depends-on-batch-size"
    c.check(np.shape(b)[0] == m and np.shape(b)[1:] == np.shape(a)[1:] and np.array_equal(np.asarray(a)[:m], b), mech,
            f"{step.step_id} on {m} grey {h}x{w} images gives {np.shape(b)}, on {n} of them {np.shape(a)}")
