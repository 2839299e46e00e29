"""T02: transductive predictions use only the given labels and structure, and are well-formed."""
import numpy as np

from vf import gen, tgen, tmeth
from vf.core import Module

M = Module(
    "T02",
    rule="Every registered transductive method is fitted on generated node datasets; hidden labels are replaced, nodes renamed, inputs fingerprinted and outputs validated. "
    "Non-trivial: distinct (method, what was changed, dataset kind).",
    preload=["torch", "scipy.sparse.csgraph", "modssc.transductive.registry"],
)


def dataset(c, mid, *, n=None, val=None, symmetric=None, loops=None):
    k = 2 if mid in tmeth.BINARY else c.pick([2, 3])
    n = n or c.py.randint(max(6, 2 * k), 16)
    y, m = tgen.labels(c, n, k)
    m[c.pick(np.flatnonzero(m))] = True
    ei, w = tgen.edges(c, n, connected=True, symmetric=(mid in ("laplace_learning", "poisson_learning") or c.chance(0.7)) if symmetric is None else symmetric, loops=c.chance(0.2) if loops is None else loops, dups=c.chance(0.15))
    masks = {}
    rest = np.flatnonzero(~m)
    v = np.zeros(n, bool)
    if (c.chance(0.5) if val is None else val) and len(rest) > 2:
        v[c.rng.permutation(rest)[: c.py.randint(1, len(rest) // 2)]] = True
        masks["val_mask"] = v
    if c.chance(0.5):
        masks["test_mask"] = ~m & ~v
    return tgen.data(c.rng.normal(size=(n, c.py.randint(1, 5))).astype(c.pick(["float32", "float32", "float64"])), y, ei, w, m, **masks), k, v


def digest(d):
    return gen.digest([d.X, d.y, d.graph.edge_index, d.graph.edge_weight, *[d.masks[k] for k in sorted(d.masks)]]), sorted(d.masks)


def fitted(mid, d, seed, **over):
    meth = tmeth.method(mid, **over)
    meth.fit(d, device=None, seed=seed)
    return np.asarray(meth.predict_proba(d))


@M.scenario(quick=300, thorough=4000)
def outputs(c):
    tmeth.check_registry()
    mid = tmeth.ALL[c.index % len(tmeth.ALL)]
    d, k, v = dataset(c, mid, symmetric=c.chance(0.7) if mid == "poisson_learning" else None)
    before, seed = digest(d), c.py.randrange(1000)
    np_state = gen.rng_state_digest() if mid in tmeth.CLASSIC else None
    meth = tmeth.method(mid)
    back = meth.fit(d, device=c.pick([None, "cpu"]), seed=seed)
    P = np.asarray(meth.predict_proba(d))
    desc = f"{mid} n={len(d.y)} k={k} masks={sorted(d.masks)}"
    c.check(back is meth, "fit-does-not-return-self", desc)
    c.check(digest(d) == before, "input-changed", desc)
    if np_state is not None:
        c.check(gen.rng_state_digest() == np_state, "global-rng-touched", desc)
    if mid == "poisson_learning" and not np.all(np.isfinite(P)):
        A = tgen.dense(len(d.y), d.graph.edge_index, d.graph.edge_weight)
        if not np.allclose(A, A.T):
            c.fail("poisson-on-directed-graph-diverges", f"{desc}: {int((~np.isfinite(P)).sum())} scores are not finite")
            return
    c.check(P.shape == (len(d.y), k) and P.dtype.kind == "f" and np.all(np.isfinite(P)), "malformed-scores", lambda: f"{desc}: {P.shape} {P.dtype}")
    if mid in tmeth.SUM_ONE:
        c.check(np.all(P >= 0) and np.allclose(P.sum(axis=1), 1, atol=1e-4), "not-probabilities", lambda: f"{desc}: row sums {P.sum(1).tolist()}")
    elif mid in ("label_propagation", "label_spreading"):
        s = P.sum(axis=1)
        c.check(np.all(P >= 0) and np.all(np.isclose(s, 1, atol=1e-4) | (s == 0)), "not-probabilities", lambda: f"{desc}: row sums {s.tolist()}")
    c.check(np.array_equal(P, np.asarray(meth.predict_proba(d))), "second-prediction-differs", desc)
    c.nontrivial((mid, k, "val_mask" in d.masks, d.graph.edge_weight is None))


@M.scenario(quick=440, thorough=6000)
def hidden_labels(c):
    """Labels outside the training mask (and, for early stopping, the validation mask) never reach a prediction."""
    mid = tmeth.ALL[c.index % len(tmeth.ALL)]
    d, k, v = dataset(c, mid)
    seed = c.py.randrange(1000)
    P = fitted(mid, d, seed)
    e = tgen.copy_data(d)
    hidden = ~d.masks["train_mask"] & ~v
    if not hidden.any():
        return
    how = c.pick(["shuffle", "missing", "rotate", "constant"])
    if how == "missing":
        e.y[hidden] = -1
    elif how == "rotate":
        e.y[hidden] = (e.y[hidden] + 1) % k
    elif how == "constant":
        e.y[hidden] = c.py.randrange(k)
    else:
        e.y[hidden] = c.rng.integers(0, k, int(hidden.sum()))
    if c.chance(0.3):
        e.masks["test_mask"] = c.rng.random(len(e.y)) < 0.5
    Q = fitted(mid, e, seed)
    c.check(np.array_equal(P, Q), "hidden-label-leak", lambda: f"{mid} n={len(d.y)} k={k} hidden labels {how}: predictions move by {np.abs(P - Q).max()}")
    c.count("hidden_labels_changed", int((d.y != e.y).sum()))
    if (d.y != e.y).any():
        c.nontrivial((mid, how, "val_mask" in d.masks))


@M.scenario(quick=200, thorough=3000)
def validation_labels_only_select(c):
    """Without a validation mask the validation labels must be unused; with one, training labels stay the training mask's."""
    mid = c.pick(tmeth.CLASSIC + ["tsvm", "planetoid"])
    d, k, v = dataset(c, mid, val=True)
    if not v.any():
        return
    seed = c.py.randrange(1000)
    e = tgen.copy_data(d)
    e.y[v] = (e.y[v] + 1) % k
    P, Q = fitted(mid, d, seed), fitted(mid, e, seed)
    c.check(np.array_equal(P, Q), "validation-label-used-for-training", lambda: f"{mid}: predictions move by {np.abs(P - Q).max()}")
    c.nontrivial((mid, k))


@M.scenario(quick=400, thorough=6000)
def renaming(c):
    """Renaming the nodes renames the predictions."""
    mid = c.pick(["label_propagation", "label_spreading", "laplace_learning", "dynamic_label_propagation", "graph_mincuts", "poisson_learning", "p_laplace_learning",
                  "gcn", "sgc", "graphsage", "appnp", "chebnet", "gcnii", "gat", "n_gcn"])
    d, k, v = dataset(c, mid, symmetric=True, loops=False)
    n = len(d.y)
    p = c.rng.permutation(n)
    e = tgen.permuted(d, p)
    q = c.rng.permutation(e.graph.edge_index.shape[1])
    if c.chance(0.5):
        e.graph.edge_index = np.ascontiguousarray(e.graph.edge_index[:, q])
        e.graph.edge_weight = None if e.graph.edge_weight is None else e.graph.edge_weight[q]
    over, tol = {}, 1e-3
    A = tgen.dense(n, d.graph.edge_index, d.graph.edge_weight)
    if mid == "dynamic_label_propagation":
        kk = c.pick([2, 10])
        if tgen.knn_tied(A, kk):
            return
        over = dict(k_neighbors=kk, max_iter=5)
    elif mid in ("laplace_learning", "poisson_learning"):
        m = d.masks["train_mask"]
        L = np.diag(A.sum(1)) - A
        if (~m).any() and np.linalg.cond(L[np.ix_(~m, ~m)]) > 1e4:
            return
        tol = 1e-2
    elif mid == "p_laplace_learning":
        tol = 0.05
    elif mid in tmeth.GNN:
        over = {} if mid == "sgc" else dict(dropout=0.0)
        d.X, e.X = d.X.astype(np.float32), e.X.astype(np.float32)
        if "val_mask" in d.masks:
            del d.masks["val_mask"], e.masks["val_mask"]
    seed = c.py.randrange(1000)
    P, Q = fitted(mid, d, seed, **over), fitted(mid, e, seed, **over)
    c.check(np.max(np.abs(P[p] - Q)) <= tol * max(1, np.abs(P).max()), "renaming-changes-predictions", lambda: f"{mid} n={n} E={d.graph.edge_index.shape[1]}: difference {np.abs(P[p] - Q).max()}")
    c.nontrivial((mid, k, d.graph.edge_weight is None))


@M.scenario(quick=240, thorough=3000)
def refusals(c):
    """Malformed datasets are refused by every method rather than interpreted."""
    mid = tmeth.ALL[c.index % len(tmeth.ALL)]
    d, k, v = dataset(c, mid)
    n = len(d.y)
    how = c.pick(["edge-too-large", "edge-negative", "short-mask", "long-mask", "no-train-mask", "gap-in-classes", "fractional-labels", "text-labels", "short-y", "weights-length", "X-1d"])
    g = d.graph
    if how == "edge-too-large":
        g.edge_index[c.py.randrange(2), c.py.randrange(g.edge_index.shape[1])] = n + c.py.randrange(3)
    elif how == "edge-negative":
        g.edge_index[c.py.randrange(2), c.py.randrange(g.edge_index.shape[1])] = -1
    elif how == "short-mask":
        d.masks["train_mask"] = d.masks["train_mask"][:-1]
    elif how == "long-mask":
        d.masks["train_mask"] = np.append(d.masks["train_mask"], False)
    elif how == "no-train-mask":
        del d.masks["train_mask"]
    elif how == "gap-in-classes":
        d.y = np.where(d.y == k - 1, k + 1, d.y)
    elif how == "fractional-labels":
        d.y = d.y + 0.5
    elif how == "text-labels":
        d.y = np.array([f"c{v}" for v in d.y])
    elif how == "short-y":
        d.y = d.y[:-1]
    elif how == "weights-length":
        g.edge_weight = np.ones(g.edge_index.shape[1] + c.pick([-1, 1]), np.float32)
        if mid == "tsvm":
            return
    else:
        d.X = d.X[:, 0]
    c.raises((ValueError, TypeError, KeyError, IndexError), lambda: tmeth.method(mid).fit(d, device=None, seed=0), "malformed-data-accepted", f"{mid}: {how}")
    c.nontrivial((mid, how))


@M.scenario(quick=1, thorough=1)
def directed_poisson(c):
    """Known: conjugate gradients on the non-symmetric system of a directed graph."""
    rng = np.random.default_rng(0)
    for _ in range(300):
        n = 15
        ei = rng.integers(0, n, (2, 30))
        y = rng.integers(0, 3, n)
        y[:3] = [0, 1, 2]
        m = np.zeros(n, bool)
        m[:5] = True
        d = tgen.data(rng.normal(size=(n, 2)).astype(np.float32), y, ei, None, m)
        P = np.asarray(tmeth.method("poisson_learning").fit(d, device=None, seed=0).predict_proba(d))
        c.count("graphs")
        if not np.all(np.isfinite(P)):
            c.fail("poisson-on-directed-graph-diverges", f"edges {ei.tolist()}: {int((~np.isfinite(P)).sum())} scores are not finite")
            return
