"""G01: the constructed graph has exactly the edges and weights its specification describes."""
import numpy as np
from modssc.graph import build_graph
from modssc.graph.specs import GraphBuilderSpec, GraphWeightsSpec

from vf import gen
from vf.core import Module

M = Module(
    "G01",
    rule="Graphs are built by every scheme, metric and backend over generated point sets (clusters, duplicates, collinear, zero rows, far offsets, integers, tiny n). "
    "Edges are judged against all-pairs float64 distances, post-processing against a dictionary reference. Non-trivial: distinct (scheme, metric, backend, data kind, n, k).",
    preload=["sklearn.neighbors", "sklearn.cluster", "faiss", "modssc.graph", "scipy.sparse"],
)


def points(c, n, d):
    kind = c.pick(["normal", "normal", "clusters", "dups", "line", "grid", "offset", "zeros", "int", "f64scale", "tiny"])
    X = c.rng.normal(size=(n, d))
    if kind == "clusters":
        X += c.rng.integers(0, 3, size=(n, 1)) * 8.0
    elif kind == "dups":
        X = X[c.rng.integers(0, max(1, n // 3), size=n)]
    elif kind == "line":
        X = np.outer(np.arange(n, dtype=float), np.ones(d)) + 0.01 * X
    elif kind == "grid":
        X = c.rng.integers(0, 3, size=(n, d)).astype(float)
    elif kind == "offset":
        X = X + 100.0
    elif kind == "zeros":
        X[c.rng.random(n) < 0.3] = 0.0
    elif kind == "int":
        return c.rng.integers(-5, 6, size=(n, d)), kind
    elif kind == "f64scale":
        X = X * 1e3
    elif kind == "tiny":
        X = np.sign(X) * (np.abs(X) + 0.5) * 1e-5  # scikit-learn takes rows of norm below 1.2e-6 for zero rows
    return X.astype(c.pick(["float32", "float64"])), kind


def all_pairs(X, metric):
    """(comparison value, tolerance): squared distances, or cosine distances."""
    A = np.asarray(X, dtype=np.float64)
    if metric == "euclidean":
        n2 = (A**2).sum(1)
        D = ((A[:, None, :] - A[None, :, :]) ** 2).sum(2)
        tol = 3e-6 * (n2[:, None] + n2[None, :]) + 1e-12
        return D, tol
    nrm = np.maximum(np.linalg.norm(A, axis=1, keepdims=True), 1e-12)
    B = A / nrm
    D = 1.0 - B @ B.T
    return D, np.full_like(D, 4e-6)


def raw(c, X, spec_kw, seed=0, **kw):
    """The directed, unnormalised edges of a request together with the distances recovered from heat weights."""
    base = dict(spec_kw, symmetrize="none", normalize="none", self_loops=False)
    sigma = 1e4 if base["metric"] == "euclidean" else 1.0
    g = build_graph(X, spec=GraphBuilderSpec(**base, weights=GraphWeightsSpec("binary")), seed=seed, cache=False, **kw)
    h = build_graph(X, spec=GraphBuilderSpec(**base, weights=GraphWeightsSpec("heat", sigma=sigma)), seed=seed, cache=False, **kw)
    c.check(np.array_equal(g.edge_index, h.edge_index), "weights-change-edges", f"{spec_kw}")
    c.check(g.edge_weight is not None and (g.edge_weight == 1).all(), "binary-weights", f"{spec_kw}")
    return g, h, sigma


def judge_edges(c, g, n, desc):
    ei = g.edge_index
    c.check(g.n_nodes == n and ei.ndim == 2 and ei.shape[0] == 2 and ei.dtype == np.int64, "edge-format", desc)
    c.check(ei.size == 0 or (ei.min() >= 0 and ei.max() < n), "edge-out-of-range", desc)
    c.check((ei[0] != ei[1]).all(), "unrequested-self-loop", desc)
    c.check(len(set(zip(*ei.tolist()))) == ei.shape[1], "duplicate-edge", desc)


def judge_distances(c, X, metric, g, spec_kw, D, tol, desc):
    """Weights follow the distances of their own edges (several bandwidths; cosine)."""
    s, t = g.edge_index
    d2 = D[s, t] if metric == "euclidean" else D[s, t] ** 2
    e2 = tol[s, t] if metric == "euclidean" else tol[s, t] * (2 * np.abs(D[s, t]) + 1e-6)
    sigma = float(np.sqrt(np.median(d2))) if d2.size and np.median(d2) > 1e-8 else 0.5
    for wk in [("heat", sigma)] + ([("cosine", None)] if metric == "cosine" else []):
        base = dict(spec_kw, symmetrize="none", normalize="none", self_loops=False, weights=GraphWeightsSpec(*wk))
        h = build_graph(X, spec=GraphBuilderSpec(**base), seed=0 if "anchor" not in spec_kw["scheme"] else spec_kw.get("_seed", 0), cache=False)
        if not np.array_equal(h.edge_index, g.edge_index):
            c.fail("weights-change-edges", desc)
        if wk[0] == "heat":
            lo, hi = np.exp(-(d2 + e2) / (2 * sigma**2)), np.exp(-np.maximum(d2 - e2, 0) / (2 * sigma**2))
        else:
            lo, hi = 1 - D[s, t] - tol[s, t], 1 - D[s, t] + tol[s, t]
        w = h.edge_weight.astype(np.float64)
        c.check(((w >= lo - 2e-6) & (w <= hi + 2e-6)).all(), "edge-weight-wrong", lambda: f"{desc} {wk}: {w[:6]} not in [{lo[:6]}, {hi[:6]}]")


def judge_knn(c, g, D, tol, k, desc, exact_count=True):
    n = g.n_nodes
    k_eff = min(k, n - 1)
    s, t = g.edge_index
    for i in range(n):
        nb = t[s == i]
        if exact_count:
            c.check(len(nb) == k_eff, "wrong-neighbour-count", f"{desc}: node {i} has {len(nb)} neighbours, want {k_eff}")
        if len(nb) == 0:
            continue
        others = np.setdiff1d(np.arange(n), np.append(nb, i))
        if others.size:
            # no left-out node is clearly closer than a chosen one
            far = (D[i, nb] - tol[i, nb]).max()
            near = (D[i, others] + tol[i, others]).min()
            c.check(near >= far, "not-nearest", lambda: f"{desc}: node {i} chose {nb.tolist()} but a left-out node is closer ({near} < {far})")
    c.count("neighbourhoods_judged", n)


@M.scenario(quick=880, thorough=12000)
def knn(c):
    n, d = c.pick([1, 2, 3, 5, 9, 17, 33, 60]), c.py.randint(1, 6)
    X, kind = points(c, n, d)
    metric = c.pick(["euclidean", "cosine"])
    backend = ["numpy", "sklearn", "faiss", "auto"][c.index % 4]
    k = c.pick([1, 2, 3, 5, 10, 100])
    kw = dict(scheme="knn", metric=metric, k=k, backend=backend, chunk_size=c.pick([1, 2, 7, 512]), faiss_exact=True)
    desc = f"knn {backend} {metric} {kind} n={n} d={d} k={k} {X.dtype}"
    before = X.copy()
    g, _, _ = raw(c, X, kw)
    c.check(np.array_equal(before, X), "input-changed", desc)
    c.check(g.directed is True, "directed-flag", desc)
    judge_edges(c, g, n, desc)
    D, tol = all_pairs(X, metric)
    judge_knn(c, g, D, tol, k, desc)
    judge_distances(c, X, metric, g, kw, D, tol, desc)
    c.nontrivial(("knn", backend, metric, kind, n, k))


@M.scenario(quick=560, thorough=8000)
def epsilon(c):
    n, d = c.pick([1, 2, 5, 9, 17, 40]), c.py.randint(1, 5)
    X, kind = points(c, n, d)
    metric = c.pick(["euclidean", "cosine"])
    D, tol = all_pairs(X, metric)
    off = D[~np.eye(n, dtype=bool)]
    q = float(np.quantile(off, c.pick([0.02, 0.1, 0.3, 0.7, 1.0]))) if off.size else 1.0
    # small integers: all distances are exact in float32, so the closed ball is decided without slack
    exact = metric == "euclidean" and kind in ("int", "grid") and c.chance(0.7)
    r = max(np.sqrt(q) if metric == "euclidean" else q, 1e-3 if kind != "tiny" or metric == "cosine" else 2e-6) * c.pick([0.99, 1.0, 1.01])
    if exact:
        r = float(c.pick([1, 2, 3, 4, 5]))
    # orthogonal integer vectors lie at cosine distance exactly one
    right_angle = metric == "cosine" and kind in ("int", "grid") and c.chance(0.5)
    if right_angle:
        r = 1.0
    backend = c.pick(["numpy", "sklearn", "auto"])
    kw = dict(scheme="epsilon", metric=metric, k=None, radius=r, backend=backend, chunk_size=c.pick([1, 3, 512]))
    desc = f"epsilon {backend} {metric} {kind} n={n} r={r:.5g}"
    g, _, _ = raw(c, X, kw)
    judge_edges(c, g, n, desc)
    bound = r * r if metric == "euclidean" else r
    A = np.zeros((n, n), dtype=bool)
    A[g.edge_index[0], g.edge_index[1]] = True
    slack = np.zeros_like(tol) if exact else tol + 1e-5 * bound
    if right_angle:
        V = np.asarray(X, dtype=np.float64)
        slack = np.where(V @ V.T == 0, 0.0, slack)
        D = np.where(V @ V.T == 0, 1.0, D)
    c.count("exact_radius_cases", int(exact or right_angle))
    inside, outside = D <= bound - slack, D > bound + slack
    np.fill_diagonal(inside, False)
    c.check((A[inside]).all(), "edge-missing", lambda: f"{desc}: {np.argwhere(inside & ~A)[:3].tolist()}")
    c.check((~A[outside]).all(), "edge-beyond-radius", lambda: f"{desc}: {np.argwhere(outside & A)[:3].tolist()}")
    judge_distances(c, X, metric, g, kw, D, tol, desc)
    c.count("pairs_judged", n * n)
    c.nontrivial(("eps", backend, metric, kind, n, round(r, 3)))


@M.scenario(quick=480, thorough=6000)
def anchor(c):
    n, d = c.pick([1, 3, 6, 12, 25, 50]), c.py.randint(1, 5)
    X, kind = points(c, n, d)
    metric = c.pick(["euclidean", "cosine"])
    backend = c.pick(["numpy", "sklearn", "faiss"])
    k = c.pick([1, 2, 4, 8, 60])
    mode = c.pick(["free", "full", "one", "limit"])
    extra = {"free": dict(n_anchors=c.pick([None, 2, 5]), anchors_k=c.pick([1, 2, 5])),
             "full": dict(n_anchors=n, anchors_k=n), "one": dict(n_anchors=1),
             "limit": dict(n_anchors=1, candidate_limit=c.pick([1, 2, 5]))}[mode]
    method = "kmeans" if (mode == "free" and kind in ("normal", "clusters") and n >= 12 and c.chance(0.4)) else "random"
    kw = dict(scheme="anchor", metric=metric, k=k, backend=backend, faiss_exact=True, anchors_method=method, chunk_size=c.pick([2, 512]), **extra)
    seed = c.py.randrange(100)
    desc = f"anchor {backend} {metric} {kind} n={n} k={k} {mode} {method} seed={seed}"
    g, h, sigma = raw(c, X, kw, seed=seed)
    judge_edges(c, g, n, desc)
    D, tol = all_pairs(X, metric)
    deg = np.bincount(g.edge_index[0], minlength=n)
    c.check(deg.max() <= min(k, n - 1), "wrong-neighbour-count", f"{desc}: {deg.max()} > {min(k, n - 1)}")
    if mode in ("full", "one"):
        judge_knn(c, g, D, tol, k, desc)
    if mode == "limit":
        lim = extra["candidate_limit"]
        want = min(k, n - 1, lim)
        c.check((deg == want).all(), "candidate-limit-ignored", f"{desc}: degrees {deg.tolist()} want {want}")
    if mode == "free" and kw["anchors_method"] == "random" and n > 1:
        # each node shares at least one anchor with some other node or has none; candidates contain its own cell: degree bounded only
        c.count("free_anchor_graphs")
    s, t = g.edge_index
    if metric == "cosine" and s.size:
        w = build_graph(X, spec=GraphBuilderSpec(**kw, symmetrize="none", normalize="none", self_loops=False, weights=GraphWeightsSpec("cosine")), seed=seed, cache=False)
        c.check(np.array_equal(w.edge_index, g.edge_index) and np.abs(w.edge_weight - (1 - D[s, t])).max() < 1e-5, "edge-weight-wrong", desc)
    elif s.size:
        med = float(np.median(D[s, t]))
        sg = np.sqrt(med) if med > 1e-8 else 0.5
        w = build_graph(X, spec=GraphBuilderSpec(**kw, symmetrize="none", normalize="none", self_loops=False, weights=GraphWeightsSpec("heat", sigma=float(sg))), seed=seed, cache=False)
        lo, hi = np.exp(-(D[s, t] + tol[s, t]) / (2 * sg**2)), np.exp(-np.maximum(D[s, t] - tol[s, t], 0) / (2 * sg**2))
        c.check(np.array_equal(w.edge_index, g.edge_index) and ((w.edge_weight >= lo - 2e-6) & (w.edge_weight <= hi + 2e-6)).all(), "edge-weight-wrong", desc)
    c.nontrivial(("anchor", backend, metric, kind, n, k, mode))


@M.scenario(quick=48, thorough=300)
def hnsw(c):
    """Approximate faiss: neighbours are valid and their weights are those of the pair."""
    n, d, k = c.pick([5, 20, 80]), c.py.randint(2, 6), c.pick([1, 3, 8])
    X = c.rng.normal(size=(n, d)).astype(np.float32)
    metric = c.pick(["euclidean", "cosine"])
    kw = dict(scheme="knn", metric=metric, k=k, backend="faiss", faiss_exact=False)
    g, _, _ = raw(c, X, kw)
    judge_edges(c, g, n, f"hnsw {kw}")
    D, tol = all_pairs(X, metric)
    deg = np.bincount(g.edge_index[0], minlength=n)
    c.check(deg.max() <= min(k, n - 1), "wrong-neighbour-count", f"hnsw n={n} k={k}: {deg.max()}")
    judge_distances(c, X, metric, g, kw, D, tol, f"hnsw {metric} n={n} k={k}")
    c.nontrivial(("hnsw", metric, n, k))


def reference_post(n, src, dst, w, sym, loops, norm):
    """Dictionary reference of the documented post-processing (float64)."""
    e = {}
    for s, t, x in zip(src.tolist(), dst.tolist(), w.astype(np.float64).tolist()):
        e[(s, t)] = x
    if sym != "none":
        out = {}
        for (s, t), x in e.items():
            if s == t:
                out[(s, t)] = x
            elif (t, s) in e:
                out[(s, t)] = 0.5 * (x + e[(t, s)])
            elif sym == "or":
                out[(s, t)] = out[(t, s)] = x
        e = out
    if loops:
        for i in range(n):
            e.setdefault((i, i), 1.0)
    deg = np.zeros(n)
    for (s, _), x in e.items():
        deg[s] += x
    if norm == "rw":
        e = {(s, t): x / max(deg[s], 1e-12) for (s, t), x in e.items()}
    elif norm == "sym":
        e = {(s, t): x / np.sqrt(max(deg[s], 1e-12) * max(deg[t], 1e-12)) for (s, t), x in e.items()}
    return e


@M.scenario(quick=880, thorough=12000)
def post_processing(c):
    n, d = c.pick([1, 2, 5, 9, 17, 40]), c.py.randint(2, 5)
    X, kind = points(c, n, d)
    metric = c.pick(["euclidean", "cosine"])
    wk = c.pick(["binary", "heat", "heat", "cosine"] if metric == "cosine" else ["binary", "heat", "heat"])
    if wk == "cosine":
        X = np.abs(X)  # non-negative similarities, so degrees are meaningful
    W = GraphWeightsSpec(wk, sigma=c.pick([0.5, 1.0, 3.0]) if wk == "heat" else None)
    scheme = c.pick(["knn", "epsilon", "anchor"])
    kw = dict(scheme=scheme, metric=metric, backend=c.pick(["numpy", "sklearn"]), chunk_size=c.pick([3, 512]),
              k=None if scheme == "epsilon" else c.pick([1, 2, 4, 9]), radius=c.pick([0.05, 0.5, 2.0]) if scheme == "epsilon" else None)
    sym, loops, norm = c.pick(["none", "or", "mutual"]), c.chance(0.5), c.pick(["none", "rw", "sym"])
    seed = c.py.randrange(50)
    base = build_graph(X, spec=GraphBuilderSpec(**kw, weights=W, symmetrize="none", normalize="none", self_loops=False), seed=seed, cache=False)
    desc = f"{kw} {wk} {W.sigma} sym={sym} loops={loops} norm={norm} {kind} n={n}"
    g = build_graph(X, spec=GraphBuilderSpec(**kw, weights=W, symmetrize=sym, normalize=norm, self_loops=loops), seed=seed, cache=False)
    want = reference_post(n, base.edge_index[0], base.edge_index[1], base.edge_weight, sym, loops, norm)
    pairs = list(zip(*g.edge_index.tolist()))
    c.check(len(set(pairs)) == len(pairs), "duplicate-edge", desc)
    c.check(set(pairs) == set(want), "edges-wrong", lambda: f"{desc}: extra {sorted(set(pairs) - set(want))[:4]} missing {sorted(set(want) - set(pairs))[:4]}")
    w = g.edge_weight
    c.check(w is not None and w.dtype == np.float32 and w.shape == (len(pairs),) and np.isfinite(w).all(), "weight-format", desc)
    tiny = 1e-30 if norm == "none" else 1e-6  # vanishing heat weights underflow in float32 before they are normalised
    for p, x in zip(pairs, w.tolist()):
        c.check(abs(x - want[p]) <= 3e-5 * abs(want[p]) + tiny, "weight-wrong", lambda p=p, x=x: f"{desc}: edge {p} weighs {x}, want {want[p]}")
    c.check(g.directed == (sym == "none"), "directed-flag", desc)
    if sym != "none" and norm != "rw":
        A = dict(zip(pairs, w.tolist()))
        c.check(all(abs(A[(t, s)] - x) <= 1e-6 * max(1e-30, abs(x)) + 1e-30 for (s, t), x in A.items()), "not-symmetric", desc)
    if norm == "rw":
        row = np.bincount(g.edge_index[0], weights=w, minlength=n)
        raw_deg = np.zeros(n)
        for (s, _), x in reference_post(n, base.edge_index[0], base.edge_index[1], base.edge_weight, sym, loops, "none").items():
            raw_deg[s] += x
        ok = raw_deg > 1e-10
        c.check(np.abs(row[ok] - 1).max(initial=0) < 1e-4, "rows-do-not-sum-to-one", desc)
    c.count("edges_judged", len(pairs))
    c.nontrivial((scheme, metric, wk, sym, loops, norm, kind, n))


@M.scenario(quick=1000, thorough=15000)
def edge_operations(c):
    """The three edge operations on arbitrary weighted edge lists (the graph builder only ever gives them near-symmetric weights)."""
    from modssc.graph.construction.ops.normalize import normalize_edge_weights
    from modssc.graph.construction.ops.self_loops import add_self_loops
    from modssc.graph.construction.ops.symmetrize import symmetrize_edges

    n = c.pick([1, 2, 3, 6, 12, 30])
    m = c.pick([0, 1, 3, n, 3 * n, 6 * n])
    src, dst = c.rng.integers(0, n, m), c.rng.integers(0, n, m)
    kind = c.pick(["any", "any", "no-loops", "loops", "one-way"])
    if kind == "no-loops":
        src, dst = src[src != dst], dst[src != dst]
    elif kind == "loops":
        dst = np.where(c.rng.random(m) < 0.5, src, dst)
    elif kind == "one-way":
        src, dst = np.minimum(src, dst), np.maximum(src, dst)
    first = {}
    for i, p in enumerate(zip(src.tolist(), dst.tolist())):
        first.setdefault(p, i)
    repeated = c.chance(0.3)
    if not repeated:
        keep = sorted(first.values())
        src, dst = src[keep], dst[keep]
        first = {p: i for i, p in enumerate(zip(src.tolist(), dst.tolist()))}
    w = c.rng.random(src.size).astype(np.float32) * c.pick([1.0, 10.0]) + 0.05
    for i, p in enumerate(zip(src.tolist(), dst.tolist())):
        w[i] = w[first[p]]  # a repeated edge repeats its weight
    ei = np.vstack([src, dst]).astype(c.pick([np.int64, np.int64, np.int32]))
    held = ei.copy(), w.copy()
    sym, loops, norm = c.pick(["none", "or", "mutual"]), c.chance(0.5), c.pick(["none", "rw", "sym"])
    weighted = c.chance(0.8)
    desc = f"{kind} n={n} m={src.size} sym={sym} loops={loops} norm={norm} weighted={weighted} repeated={repeated}"
    if repeated and sym == "none":
        sym = "or"
    e2, w2 = symmetrize_edges(n_nodes=n, edge_index=ei, edge_weight=w if weighted else None, mode=sym)
    if loops:
        e2, w2 = add_self_loops(n_nodes=n, edge_index=e2, edge_weight=w2)
    w2 = normalize_edge_weights(n_nodes=n, edge_index=e2, edge_weight=w2, mode=norm)
    c.check(np.array_equal(ei, held[0]) and np.array_equal(w, held[1]), "input-changed", desc)
    c.check((w2 is not None) == weighted, "weight-format", desc)
    want = reference_post(n, src, dst, w, sym, loops, norm)
    pairs = list(zip(*np.asarray(e2).tolist()))
    c.check(len(set(pairs)) == len(pairs), "duplicate-edge", desc)
    c.check(set(pairs) == set(want), "edges-wrong", lambda: f"{desc}: extra {sorted(set(pairs) - set(want))[:4]} missing {sorted(set(want) - set(pairs))[:4]}")
    if weighted:
        c.check(w2.dtype == np.float32 and w2.shape == (len(pairs),), "weight-format", desc)
        for p, x in zip(pairs, w2.tolist()):
            c.check(abs(x - want[p]) <= 3e-5 * abs(want[p]) + 1e-30, "weight-wrong", lambda p=p, x=x: f"{desc}: edge {p} weighs {x}, want {want[p]}")
    c.count("edges_judged", len(pairs))
    c.nontrivial(("ops", kind, n, sym, loops, norm, weighted, repeated))


@M.scenario(quick=320, thorough=4000)
def anchors_everywhere(c):
    """With every row an anchor the graph has a definition free of random draws: candidates share one of their r nearest rows."""
    n, d = c.pick([2, 4, 7, 12, 25, 40]), c.py.randint(1, 5)
    X = (c.rng.normal(size=(n, d)) * c.pick([1.0, 5.0])).astype(c.pick(["float32", "float64"]))
    metric = c.pick(["euclidean", "cosine"])
    backend = c.pick(["numpy", "sklearn", "faiss"])
    k, r = c.pick([1, 2, 4, 60]), c.py.randint(1, n)
    kw = dict(scheme="anchor", metric=metric, k=k, backend=backend, faiss_exact=True, anchors_method="random", chunk_size=c.pick([1, 3, 512]),
              n_anchors=c.pick([n, n + 5]), anchors_k=c.pick([r, r, n + 3]))
    r = min(kw["anchors_k"], n)
    desc = f"anchor {backend} {metric} n={n} k={k} r={r}"
    D, tol = all_pairs(X, metric)
    order = np.argsort(D, axis=1)
    S = np.take_along_axis(D, order, axis=1)
    if r < n and np.any(S[:, r] - S[:, r - 1] <= 2 * tol.max()):
        c.count("skipped:tied-anchors")
        return
    near = np.zeros((n, n), dtype=bool)
    np.put_along_axis(near, order[:, :r], True, axis=1)
    cand = (near.astype(int) @ near.T.astype(int)) > 0
    np.fill_diagonal(cand, False)
    g, _, _ = raw(c, X, kw, seed=c.py.randrange(100))
    judge_edges(c, g, n, desc)
    A = np.zeros((n, n), dtype=bool)
    A[g.edge_index[0], g.edge_index[1]] = True
    c.check(not (A & ~cand).any(), "not-a-candidate", lambda: f"{desc}: {np.argwhere(A & ~cand)[:3].tolist()}")
    for i in range(n):
        want = min(k, int(cand[i].sum()))
        c.check(A[i].sum() == want, "wrong-neighbour-count", f"{desc}: row {i}: {A[i].sum()} of {want}")
        rest = cand[i] & ~A[i]
        if want and rest.any():
            c.check(D[i][A[i]].max() <= D[i][rest].min() + 2 * tol.max(), "not-the-nearest", f"{desc}: row {i}")
    c.count("edges_judged", int(A.sum()))
    c.nontrivial(("anchors", backend, metric, n, k, r))
