"""G02: graph construction is deterministic, pure and cached under an identity that stands for exactly one graph."""
from dataclasses import replace

import numpy as np
from modssc.graph import build_graph
from modssc.graph.artifacts import GraphArtifact
from modssc.graph.cache import GraphCache
from modssc.graph.specs import GraphBuilderSpec, GraphWeightsSpec

from vf import gen, xproc
from vf.core import Module

M = Module(
    "G02",
    rule="Histories of graph requests (several point sets differing in one value, specs differing in one field, seeds, upstream fingerprints, shard sizes) over one cache; "
    "each answer must equal the uncached answer of the same request. Non-trivial: distinct (request pair kinds, cache hit, storage form).",
    preload=["sklearn.neighbors", "sklearn.cluster", "modssc.graph", "scipy.sparse"],
)


def same(a, b):
    if a.n_nodes != b.n_nodes or a.directed != b.directed:
        return f"n_nodes/directed {a.n_nodes}/{a.directed} != {b.n_nodes}/{b.directed}"
    if a.edge_index.dtype != b.edge_index.dtype or not np.array_equal(a.edge_index, b.edge_index):
        return f"edges differ: {a.edge_index.shape} vs {b.edge_index.shape}"
    if (a.edge_weight is None) != (b.edge_weight is None):
        return f"weights {a.edge_weight is not None} vs {b.edge_weight is not None}"
    if a.edge_weight is not None and (a.edge_weight.dtype != b.edge_weight.dtype or not np.array_equal(a.edge_weight, b.edge_weight)):
        return f"weights differ: {a.edge_weight[:5]} vs {b.edge_weight[:5]}"
    return None


def spec(c):
    scheme = c.pick(["knn", "knn", "epsilon", "anchor"])
    metric = c.pick(["euclidean", "cosine"])
    wk = c.pick(["binary", "heat"] + (["cosine"] if metric == "cosine" else []))
    return GraphBuilderSpec(
        scheme=scheme, metric=metric, k=None if scheme == "epsilon" else c.pick([2, 3, 5]), radius=c.pick([0.8, 1.5]) if scheme == "epsilon" else None,
        symmetrize=c.pick(["none", "or", "mutual"]), weights=GraphWeightsSpec(wk, sigma=1.0 if wk == "heat" else None), normalize=c.pick(["none", "rw", "sym"] if wk != "cosine" else ["none"]),
        self_loops=c.chance(0.5), backend=c.pick(["numpy", "sklearn"]), chunk_size=c.pick([4, 512]), n_anchors=c.pick([3, 4]), anchors_k=2)


def mutate(c, s):
    """A spec that differs in one field that matters for the edges or weights."""
    opts = [("symmetrize", [x for x in ("none", "or", "mutual") if x != s.symmetrize]), ("normalize", [x for x in ("none", "rw", "sym") if x != s.normalize]),
            ("self_loops", [not s.self_loops]), ("metric", [x for x in ("euclidean", "cosine") if x != s.metric])]
    if s.scheme == "epsilon":
        opts.append(("radius", [s.radius * 1.25, s.radius + 1e-3, s.radius * (1 + 1e-9)]))
    else:
        opts.append(("k", [s.k + 1, s.k - 1]))
    if s.scheme == "anchor":
        opts += [("n_anchors", [s.n_anchors + 1]), ("anchors_k", [1, 3]), ("candidate_limit", [2])]
    if s.weights.kind == "heat":
        opts.append(("weights", [GraphWeightsSpec("heat", sigma=0.7), GraphWeightsSpec("heat", sigma=1.0003), GraphWeightsSpec("heat", sigma=1.00001), GraphWeightsSpec("binary")]))
    f, vals = c.pick(opts)
    t = replace(s, **{f: c.pick(vals)})
    if f == "metric" and s.weights.kind == "cosine":
        t = replace(t, weights=GraphWeightsSpec("binary"))
    return t, f


def points(c, n, d):
    return c.rng.normal(size=(n, d)).astype(c.pick(["float32", "float64"]))


@M.scenario(quick=300, thorough=3000)
def history(c):
    n, d = c.py.randint(6, 24), c.py.randint(2, 5)
    X1 = points(c, n, d)
    X2 = X1.copy()
    X2[c.py.randrange(n), c.py.randrange(d)] += 0.75
    X3 = X1.astype("float64" if X1.dtype == np.float32 else "float32")
    X4 = X1[::-1].copy()
    xs = [X1, X2, X3, X4]
    s1 = spec(c)
    s2, field = mutate(c, s1)
    s3, field3 = mutate(c, s1)
    root = c.tmp()
    by_fp = {}
    for step in range(c.py.randint(6, 10)):
        xi, si, seed = c.pick([0, 0, 1, 2, 3]), c.pick([0, 0, 1, 2]), c.pick([0, 0, 1, 2**32, 2**33])
        X, s = xs[xi], [s1, s2, s3][si]
        up = c.pick([None, None, "given"])
        dfp = None if up is None else f"ds{xi}"
        pfp = c.pick([None, None, "p1", "p2"])
        # upstream fingerprints name the upstream data: other preprocessing means other features
        if pfp is not None:
            X = X + (1.0 if pfp == "p1" else -0.5) * np.arange(d, dtype=X.dtype)
        shard, resume = c.pick([None, None, 1, 3, 10**6]), c.chance(0.7)
        before, state = X.copy(), gen.rng_state_digest()
        kw = dict(spec=s, seed=seed, dataset_fingerprint=dfp, preprocess_fingerprint=pfp)
        try:
            want = build_graph(X, cache=False, **kw)
        except Exception:
            c.count("rejected_requests")
            return
        hit = GraphCache(root=root).exists(want.meta["fingerprint"])
        got = build_graph(X, cache=True, cache_dir=root, edge_shard_size=shard, resume=resume, **kw)
        desc = f"step {step}: x{xi} spec{si}({field if si == 1 else field3 if si == 2 else '-'}) seed={seed} dfp={dfp} pfp={pfp} shard={shard} hit={hit}: {s.to_dict()}"
        d_ = same(got, want)
        c.check(d_ is None, "cached-graph-differs", f"{desc}: {d_}")
        c.check(got.meta == want.meta, "meta-differs", f"{desc}: {got.meta} != {want.meta}")
        c.check(np.array_equal(X, before) and gen.rng_state_digest() == state, "not-pure", desc)
        # the fingerprint identifies the request
        content = f"x{xi}" if up else before.tobytes().hex() + str(before.dtype)
        key = ("given" if up else "hash", content, pfp, si if (si == 0 or [s2, s3][si - 1] != s1) else 0, seed)
        if s2 == s3 and si == 2:
            key = (*key[:3], 1, seed)
        old = by_fp.setdefault(got.meta["fingerprint"], key)
        c.check(old == key, "fingerprint-shared", f"{desc}: {old[0]}..{old[2:]} and {key[0]}..{key[2:]}")
        c.check(sum(1 for k in by_fp.values() if k == key) == 1, "fingerprint-unstable", desc)
        loaded, _ = GraphCache(root=root, edge_shard_size=c.pick([None, 2])).load(got.meta["fingerprint"])
        d_ = same(loaded, want)
        c.check(d_ is None, "loaded-graph-differs", f"{desc}: {d_}")
        c.check(sorted(by_fp) == GraphCache(root=root).list(), "cache-listing", desc)
        c.count("cache_hits", int(hit))
        gen.perturb_global_rng(c)
        c.nontrivial((s.scheme, si, xi, up, pfp, shard, hit))


@M.scenario(quick=150, thorough=1500)
def chunks(c):
    """Chunking never changes the graph; repeated and perturbed builds agree bit for bit."""
    n, d = c.py.randint(3, 40), c.py.randint(2, 5)
    X = points(c, n, d)
    s = replace(spec(c), backend="numpy")
    seed = c.py.randrange(100)
    ref = build_graph(X, spec=replace(s, chunk_size=10**6), seed=seed, cache=False)
    for ch in (1, 2, c.py.randint(1, n), n):
        g = build_graph(X, spec=replace(s, chunk_size=ch), seed=seed, cache=False)
        a = dict(zip(zip(*ref.edge_index.tolist()), ref.edge_weight.tolist()))
        b = dict(zip(zip(*g.edge_index.tolist()), g.edge_weight.tolist()))
        c.check(set(a) == set(b), "chunking-changes-edges", f"{s.to_dict()} n={n} chunk={ch}: {sorted(set(a) ^ set(b))[:4]}")
        c.check(all(abs(a[e] - b[e]) <= 1e-4 * abs(a[e]) + 1e-6 for e in a), "chunking-changes-weights", f"{s.to_dict()} n={n} chunk={ch}")
    gen.perturb_global_rng(c)
    again = build_graph(np.asfortranarray(X) if c.chance(0.3) else X.copy(), spec=GraphBuilderSpec.from_dict(replace(s, chunk_size=10**6).to_dict()), seed=seed, cache=False)
    c.check(set(zip(*again.edge_index.tolist())) == set(zip(*ref.edge_index.tolist())), "not-deterministic", f"{s.to_dict()}")
    again = build_graph(X, spec=replace(s, chunk_size=10**6), seed=seed, cache=False)
    c.check(same(again, ref) is None, "not-deterministic", f"{s.to_dict()}")
    if s.scheme == "anchor" and n >= 20:
        gs = [build_graph(X, spec=s, seed=seed + 1 + i, cache=False) for i in range(4)]
        if not all(same(x, ref) is None for x in gs):
            c.count("anchor_seed_matters")
    c.nontrivial((s.scheme, s.metric, n, s.symmetrize))


@M.scenario(quick=7, thorough=24)
def large(c):
    """Megabytes of features: a change of one row anywhere is another graph."""
    n, d = 260, c.pick([4200, 5000])
    X = c.rng.normal(size=(n, d)).astype(np.float32)
    # a pair of rows far apart becomes a close pair
    i, j = sorted(c.py.sample(range(n // 2 - 8, n // 2 + 8), 2))
    Y = X.copy()
    Y[j] = Y[i] + np.float32(0.01)
    s = GraphBuilderSpec(scheme="knn", metric=c.pick(["euclidean", "cosine"]), k=2, backend="numpy", symmetrize="or", weights=GraphWeightsSpec("binary"), chunk_size=c.pick([64, 512]))
    root = c.tmp()
    for A in (X, Y, X):
        got = build_graph(A, spec=s, seed=0, cache=True, cache_dir=root)
        d_ = same(got, build_graph(A, spec=s, seed=0, cache=False))
        c.check(d_ is None, "cached-graph-differs", f"{X.nbytes} bytes of features, rows {i}/{j} changed: {d_}")
    c.nontrivial((d, i, j))


@M.scenario(quick=375, thorough=4000)
def storage(c):
    """Any graph saved into the cache loads back identically, in every storage form, also over an older entry."""
    root = c.tmp()

    def artifact():
        n = c.pick([1, 2, 7, 30])
        E = c.pick([0, 1, 2, 9, 40])
        ei = c.rng.integers(0, n, size=(2, E))
        w = None if c.chance(0.3) else c.rng.normal(size=E).astype(np.float32)
        return GraphArtifact(n_nodes=n, edge_index=ei, edge_weight=w, directed=c.chance(0.5), meta={"fingerprint": "f", "k": c.py.randrange(9), "nest": {"a": [1, None, "é"]}})

    for k in range(c.py.randint(1, 4)):
        g = artifact()
        shard = c.pick([None, 0, 1, 2, 5, 100])
        GraphCache(root=root, edge_shard_size=shard).save(fingerprint="f", graph=g, manifest={"note": k}, overwrite=True)
        got, man = GraphCache(root=root).load("f")
        d = same(got, g)
        c.check(d is None and got.meta == g.meta and man["note"] == k, "loaded-graph-differs", f"save {k} shard={shard} E={g.n_edges} weights={g.edge_weight is not None}: {d}")
        c.nontrivial((k, shard, g.n_edges, g.edge_weight is None))
    c.check(GraphCache(root=root).purge() == 1 and GraphCache(root=root).list() == [] and not GraphCache(root=root).exists("f"), "purge-incomplete", "")


def remote(p):
    """Built in a fresh interpreter."""
    X = np.asarray(p["X"], dtype=p["dtype"])
    g = build_graph(X, spec=GraphBuilderSpec.from_dict(p["spec"]), seed=p["seed"], cache=False)
    return [g.edge_index.tolist(), g.edge_weight.astype(float).tolist(), g.meta["fingerprint"]]


@M.scenario(quick=15, thorough=40)
def processes(c):
    X = points(c, c.py.randint(8, 30), 3)
    s = spec(c)
    seed = c.py.randrange(1000)
    g = build_graph(X, spec=s, seed=seed, cache=False)
    r = xproc.fresh_process("checks.G02", "remote", {"X": X.astype(float).tolist(), "dtype": str(X.dtype), "spec": s.to_dict(), "seed": seed})
    c.check(r[2] == g.meta["fingerprint"], "fingerprint-differs-across-processes", f"{s.to_dict()}")
    c.check(r[0] == g.edge_index.tolist() and np.allclose(r[1], g.edge_weight, rtol=1e-6), "graph-differs-across-processes", f"{s.to_dict()}")
    c.nontrivial((s.scheme, s.metric))
