"""Datasets and plans for the sampling checks, and the reference partition monitor."""
from __future__ import annotations

import numpy as np
from modssc.data_loader.types import LoadedDataset, Split
from modssc.sampling import plan as P

from . import gen


def dataset(c, *, graph=None, test=None, n=None, min_n=0, label_kinds=None):
    n = n if n is not None else c.pick([c.py.randint(max(min_n, 1), 12), c.py.randint(max(min_n, 5), 60), c.py.randint(max(min_n, 20), 220)])
    kw = {} if label_kinds is None else {"kinds": label_kinds}
    y, kind = gen.labels(c, n, **kw)
    if c.chance(0.3):
        y = np.sort(y)
    if c.chance(0.15):
        y = y.tolist()
    graph = c.chance(0.35) if graph is None else graph
    X = c.rng.normal(size=(n, 2))
    meta = {"dataset_fingerprint": f"ds{c.py.randrange(10**9)}"}
    if graph:
        masks = None
        style = c.pick(["none", "full", "partial"])
        if style == "full":
            part = c.rng.integers(0, 4, size=n)
            masks = {"train": part == 0, "val": part == 1, "test": part == 2}
            if c.chance(0.3):
                masks = {k: m.astype(np.int64) for k, m in masks.items()}
        elif style == "partial":
            masks = {"train": c.rng.random(n) < 0.5}
        edges = None
        if masks is None or c.chance(0.5):
            edges = c.rng.integers(0, n, size=(2, 3 * n))
        return LoadedDataset(train=Split(X=X, y=y, edges=edges, masks=masks), test=None, meta=meta), {"graph": True, "n": n, "masks": style, "label": kind}
    has_test = c.chance(0.4) if test is None else test
    tst = None
    nt = None
    if has_test:
        nt = c.py.randint(1, 30)
        yt = np.asarray(y)[c.rng.integers(0, n, size=nt)]
        tst = Split(X=c.rng.normal(size=(nt, 2)), y=yt)
    return LoadedDataset(train=Split(X=X, y=y), test=tst, meta=meta), {"graph": False, "n": n, "n_test": nt, "label": kind}


def split_spec(c, n):
    if c.chance(0.6):
        fr = lambda: c.pick([0.0, 0.1, 0.2, 0.25, 0.33, 0.5, 0.9, 1.0, round(c.py.random(), 3)])
        return P.HoldoutSplitSpec(test_fraction=fr(), val_fraction=fr(), stratify=c.chance(0.6), shuffle=c.chance(0.8))
    k = c.py.randint(2, 7)
    return P.KFoldSplitSpec(k=k, fold=c.py.randrange(k), stratify=c.chance(0.6), shuffle=c.chance(0.6), val_fraction=c.pick([0.0, 0.0, 0.1, 0.3, 0.5]))


def labeling_spec(c, n):
    mode = c.pick(["fraction", "count", "per_class"])
    if mode == "fraction":
        v = c.pick([0.01, 0.1, 0.3, 0.5, 1.0, max(0.001, round(c.py.random(), 3))])
    elif mode == "count":
        v = c.pick([0, 1, 2, 5, 10, c.py.randint(0, n + 5)])
    else:
        v = c.pick([1, 2, 3, 5, 10])
    return P.LabelingSpec(mode=mode, value=v, per_class=c.chance(0.2), min_per_class=c.pick([0, 1, 1, 1, 2, 4]), strategy=c.pick(["proportional", "balanced"]))


def imbalance_spec(c, *, none=0.5):
    if c.chance(none):
        return P.ImbalanceSpec()
    ap = c.pick(["train", "labeled"])
    if c.chance(0.5):
        return P.ImbalanceSpec(kind="subsample_max_per_class", apply_to=ap, max_per_class=c.pick([1, 2, 5, 10, 40]))
    return P.ImbalanceSpec(kind="long_tail", apply_to=ap, alpha=round(c.py.uniform(0.05, 0.95), 4), min_per_class=c.pick([0, 1, 1, 3]))


def policy(c):
    return P.SamplingPolicy(respect_official_test=c.chance(0.7), use_official_graph_masks=c.chance(0.6), allow_override_official=c.chance(0.25))


def plan(c, n, **over):
    kw = dict(split=split_spec(c, n), labeling=labeling_spec(c, n), imbalance=imbalance_spec(c), policy=policy(c))
    kw.update(over)
    return P.SamplingPlan(**kw)


PARTS = ("train", "val", "test", "labeled", "unlabeled")


def parts_of(res):
    """(parts as index arrays, base of test), from a result of either mode."""
    return {
        "train": np.asarray(res.train_idx),
        "val": np.asarray(res.val_idx),
        "test": np.asarray(res.test_idx),
        "labeled": np.asarray(res.labeled_idx),
        "unlabeled": np.asarray(res.unlabeled_idx),
    }
