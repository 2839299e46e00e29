"""T03: transductive fits and predictions are a function of data, settings and seed, not of history."""
import gc

import numpy as np

from checks.T02 import dataset
from vf import gen, tgen, tmeth
from vf.core import Module
from vf.xproc import fresh_process

M = Module(
    "T03",
    rule="Every method is fitted again under the same seed after other fits, predictions, re-seedings and short-lived datasets, in the same and in another process, and predictions on "
    "sequences of datasets are compared with an untouched twin. Non-trivial: distinct (method, kind of history).",
    preload=["torch", "scipy.sparse.csgraph", "modssc.transductive.registry"],
)
SEEDED = [m for m in tmeth.GNN] + ["tsvm"]


def disturb(c, mid):
    for _ in range(c.py.randint(1, 2)):
        gen.perturb_global_rng(c)
    if c.chance(0.5):
        other = c.pick(tmeth.GNN)
        d, _, _ = dataset(c, other)
        tmeth.method(other, epochs=2).fit(d, device=None, seed=c.py.randrange(99))
        gen.perturb_global_rng(c)


@M.scenario(quick=150, thorough=5000)
def same_seed(c):
    mid = tmeth.ALL[c.index % len(tmeth.ALL)]
    d, k, v = dataset(c, mid)
    seed = c.pick([0, 1, 2**31 - 1, c.py.randrange(10**6)])
    over = dict(device=c.pick([None, "cpu"]), seed=seed)
    gen.perturb_global_rng(c)
    a = tmeth.method(mid)
    P = np.asarray(a.fit(d, **over).predict_proba(d))
    disturb(c, mid)
    d2 = tgen.copy_data(d) if c.chance(0.5) else d
    Q = np.asarray(tmeth.method(mid).fit(d2, **over).predict_proba(d2))
    c.check(np.array_equal(P, Q), "same-seed-different-result", lambda: f"{mid} n={len(d.y)} seed={seed}: difference {np.abs(P - Q).max()}")
    c.check(np.array_equal(P, np.asarray(a.predict_proba(d))), "prediction-changes-later", mid)
    # the same object fitted again, possibly after another dataset
    if c.chance(0.5):
        e, _, _ = dataset(c, mid)
        a.fit(e, device=None, seed=3)
        how = "refit after other data"
    else:
        how = "refit"
    gen.perturb_global_rng(c)
    R = np.asarray(a.fit(d, **over).predict_proba(d))
    c.check(np.array_equal(P, R), "refit-differs", lambda: f"{mid} {how}: difference {np.abs(P - R).max() if P.shape == R.shape else (P.shape, R.shape)}")
    c.nontrivial((mid, how))


@M.scenario(quick=60, thorough=1500)
def seed_matters(c):
    mid = SEEDED[c.index % len(SEEDED)]
    other = 5 + c.pick([1, 2**31])
    same = 0
    for _ in range(4):  # one dataset may be degenerate (dead units, saturated scores)
        d, k, v = dataset(c, mid, val=False)
        a, b = (np.asarray(tmeth.method(mid).fit(d, device=None, seed=s).predict_proba(d)) for s in (5, other))
        if not np.array_equal(a, b):
            break
        same += 1
    c.check(same < 4, "seed-ignored", f"{mid}: seeds 5 and {other} give identical scores on four datasets")
    c.nontrivial((mid,))


def _changed(c, d):
    """A variant of d with the same node count."""
    e = tgen.copy_data(d)
    what = c.pick(["X", "edges", "weights", "both"])
    if what in ("X", "both"):
        e.X = c.rng.normal(size=e.X.shape).astype(e.X.dtype)
    if what in ("edges", "both"):
        e.graph.edge_index = c.rng.integers(0, len(e.y), e.graph.edge_index.shape)
    if what == "weights":
        e.graph.edge_weight = (c.rng.random(e.graph.edge_index.shape[1]) + 0.1).astype(np.float32)
    return e, what


@M.scenario(quick=150, thorough=5000)
def prediction_history(c):
    """Each prediction is the one an untouched twin gives, whatever was predicted before and however short-lived the data."""
    mid = tmeth.FROM_X[c.index % len(tmeth.FROM_X)]
    d, k, v = dataset(c, mid)
    seed = c.py.randrange(1000)
    a = tmeth.method(mid, epochs=2).fit(d, device=None, seed=seed)
    kept = []
    for step in range(c.py.randint(2, 6)):
        e, what = (tgen.copy_data(d), "same") if c.chance(0.3) else _changed(c, d)
        if c.chance(0.2) and kept:
            e, what = c.pick(kept), "earlier"
        P = np.asarray(a.predict_proba(e))
        twin = tmeth.method(mid, epochs=2).fit(d, device=None, seed=seed)
        Q = np.asarray(twin.predict_proba(tgen.copy_data(e)))
        c.check(np.array_equal(P, Q), "stale-prediction", lambda: f"{mid} step {step}, dataset with changed {what}: difference from an untouched twin {np.abs(P - Q).max()}")
        c.nontrivial((mid, what, step > 0))
        if c.chance(0.4):
            kept.append(e)
        del e, twin
        if c.chance(0.5):
            gc.collect()


@M.scenario(quick=180, thorough=3000)
def refit_after_change(c):
    """Replacing a member of the dataset (mask, features, labels, edges) is seen by the next fit of the same object."""
    mid = c.pick(tmeth.ALL)
    d, k, v = dataset(c, mid)
    seed = c.py.randrange(1000)
    what = c.pick(["train_mask", "X", "y", "graph", "weights", "edge_index", "val_mask", "val_mask"])
    if what == "val_mask":
        mid = c.pick([m for m in tmeth.GNN if m != "planetoid"])
        d, k, v = dataset(c, mid)
    over = dict(epochs=12, patience=1, lr=0.3) if what == "val_mask" and mid not in ("graphhop",) else {}

    def method():
        return tmeth.method(mid, **over)
    a = method()
    a.fit(d, device=None, seed=seed).predict_proba(d)
    if what == "val_mask":
        w = np.zeros(len(d.y), bool)
        rest = np.flatnonzero(~d.masks["train_mask"] & ~d.masks.get("val_mask", w))
        w[c.rng.permutation(rest)[: c.py.randint(0, len(rest))]] = True
        if not w.any() and "val_mask" in d.masks and c.chance(0.5):
            del d.masks["val_mask"]
        else:
            d.masks["val_mask"] = w
    elif what == "edge_index":
        d.graph.edge_index = c.rng.permutation(d.graph.edge_index.T).T.copy() if d.graph.edge_weight is not None and mid != "laplace_learning" else c.rng.permutation(len(d.y))[d.graph.edge_index]
    elif what == "train_mask":
        m = d.masks["train_mask"].copy()
        free = np.flatnonzero(~m)
        m[c.rng.permutation(free)[: max(1, len(free) // 2)]] = True
        d.masks["train_mask"] = m
    elif what == "X":
        d.X = d.X[::-1].copy() * 2
    elif what == "y":
        d.y = (d.y + 1) % k
    elif what == "graph":
        e, _, _ = dataset(c, mid, n=len(d.y))
        d.graph = e.graph
    else:
        d.graph.edge_weight = (c.rng.random(d.graph.edge_index.shape[1]) + 0.1).astype(np.float32)
    P = np.asarray(a.fit(d, device=None, seed=seed).predict_proba(d))
    f = tgen.copy_data(d)
    Q = np.asarray(method().fit(f, device=None, seed=seed).predict_proba(f))
    c.check(np.array_equal(P, Q, equal_nan=True), "stale-refit", lambda: f"{mid} after replacing {what}: difference {np.abs(P - Q).max()}")
    c.nontrivial((mid, what))


def child_fit(payload):
    d = tgen.data(np.asarray(payload["X"], dtype=payload["dtype"]), np.asarray(payload["y"]), np.asarray(payload["ei"]), None if payload["w"] is None else np.asarray(payload["w"], np.float32), np.asarray(payload["m"], bool))
    return {mid: np.asarray(tmeth.method(mid).fit(d, device=None, seed=payload["seed"]).predict_proba(d), float).tolist() for mid in payload["methods"]}


@M.scenario(quick=6, thorough=60)
def other_process(c):
    methods = [m for m in tmeth.ALL if m != "laplace_learning"]
    d, k, v = dataset(c, "tsvm", val=False)
    payload = dict(X=d.X.tolist(), dtype=str(d.X.dtype), y=d.y.tolist(), ei=d.graph.edge_index.tolist(), w=None if d.graph.edge_weight is None else d.graph.edge_weight.tolist(), m=d.masks["train_mask"].tolist(),
                   seed=c.py.randrange(1000), methods=methods)
    here = child_fit(payload)
    there = fresh_process("checks.T03", "child_fit", payload)
    for mid in methods:
        c.check(here[mid] == there[mid], "process-dependent", lambda: f"{mid}: {np.abs(np.array(here[mid]) - np.array(there[mid])).max()}")
    c.nontrivial((c.index,))
