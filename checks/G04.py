"""G04: graph-derived views, masks and exports are those of the given graph and features, cached or not."""
from dataclasses import replace

import numpy as np
from modssc.graph import graph_to_views
from modssc.graph.adapters.pyg import to_pyg_data
from modssc.graph.artifacts import GraphArtifact, NodeDataset
from modssc.graph.featurization.ops.adjacency import adjacency_from_edge_index
from modssc.graph.errors import GraphValidationError
from modssc.graph.masks import masks_from_indices
from modssc.graph.specs import GraphFeaturizerSpec

from checks.G03 import same_views
from vf import gen
from vf.core import Module

M = Module(
    "G04",
    rule="Views of generated graphs (weighted, unweighted, directed, isolated nodes, several components, duplicate edges) are compared with dense float64 recomputation, and "
    "histories over one view cache with uncached runs. Non-trivial: distinct (view, graph kind, parameters) and (changed ingredient, cache hit).",
    preload=["scipy.sparse", "torch", "torch_geometric.data", "sklearn.decomposition", "modssc.graph"],
)


def graph(c, n, comps=1, fp=None):
    comp = np.sort(c.rng.integers(0, comps, n))
    E = c.py.randint(0, 4 * n)
    ei = c.rng.integers(0, n, size=(2, E))
    ei = ei[:, comp[ei[0]] == comp[ei[1]]]
    if c.chance(0.6):
        ei = np.unique(ei, axis=1) if ei.size else ei
    if c.chance(0.5):
        ei = np.concatenate([ei, ei[::-1]], axis=1)
    w = None if c.chance(0.35) else ((c.rng.random(ei.shape[1]) + 0.01) * c.pick([1, 1, 1e-8, 1e-5, 1e4])).astype(np.float32)
    return GraphArtifact(n_nodes=n, edge_index=ei, edge_weight=w, directed=c.chance(0.5), meta={} if fp is None else {"fingerprint": fp}), comp


def node_ds(c, n, g, X=None):
    return NodeDataset(X=c.rng.normal(size=(n, c.py.randint(1, 4))).astype(c.pick(["float32", "float64"])) if X is None else X,
                       y=c.rng.integers(0, 3, n), graph=g, masks={"train": c.rng.random(n) < 0.5})


def spec(c, views=None):
    return GraphFeaturizerSpec(views=views or c.pick([("attr",), ("diffusion",), ("struct",), ("attr", "diffusion"), ("diffusion", "struct", "attr")]), diffusion_steps=c.pick([0, 1, 3, 5]),
                               diffusion_alpha=c.pick([0.0, 0.1, 0.5, 1.0]), struct_method=c.pick(["deepwalk", "node2vec"]), struct_dim=c.pick([2, 5]), walk_length=c.pick([2, 6]),
                               num_walks_per_node=c.pick([1, 2]), window_size=c.pick([1, 3]), p=c.pick([1.0, 0.25]), q=c.pick([1.0, 4.0]))


@M.scenario(quick=400, thorough=6000)
def values(c):
    n = c.pick([1, 2, 4, 9, 15])
    g, comp = graph(c, n, comps=c.pick([1, 2, 3]))
    ds = node_ds(c, n, g)
    fs = spec(c)
    seed = c.py.randrange(1000)
    desc = f"n={n} E={g.n_edges} weights={g.edge_weight is not None} {fs}"
    before, state = gen.digest([ds.X, g.edge_index, g.edge_weight, ds.y]), gen.rng_state_digest()
    out = graph_to_views(ds, spec=fs, seed=seed, cache=False)
    c.check(gen.digest([ds.X, g.edge_index, g.edge_weight, ds.y]) == before and gen.rng_state_digest() == state, "not-pure", desc)
    c.check(set(out.views) == set(fs.views) and np.array_equal(out.y, ds.y) and np.array_equal(out.masks["train"], ds.masks["train"]), "views-or-labels-wrong", desc)
    if "attr" in fs.views:
        c.check(np.array_equal(out.views["attr"], ds.X), "attr-view", desc)
    if "diffusion" in fs.views:
        w = np.ones(g.n_edges) if g.edge_weight is None else g.edge_weight.astype(np.float64)
        P = np.zeros((n, n))
        np.add.at(P, (g.edge_index[0], g.edge_index[1]), w)
        deg = P.sum(1, keepdims=True)
        P = np.divide(P, deg, out=np.zeros_like(P), where=deg > 0)
        H = X0 = ds.X.astype(np.float64)
        for _ in range(fs.diffusion_steps):
            H = (1 - fs.diffusion_alpha) * (P @ H) + fs.diffusion_alpha * X0
        got = out.views["diffusion"]
        c.check(got.dtype == np.float32 and got.shape == X0.shape, "diffusion-format", desc)
        c.check(np.abs(got - H).max(initial=0) <= 2e-5 * (1 + np.abs(X0).max()), "diffusion-wrong", lambda: f"{desc}: error {np.abs(got - H).max():.3g}")
    if "struct" in fs.views:
        e = out.views["struct"]
        c.check(e.shape == (n, fs.struct_dim) and e.dtype == np.float32 and np.isfinite(e).all(), "struct-format", f"{desc}: {e.shape} {e.dtype}")
        gen.perturb_global_rng(c)
        e2 = graph_to_views(replace(ds, X=c.rng.normal(size=(n, 2))), spec=fs, seed=seed, cache=False).views["struct"]
        c.check(np.array_equal(e, e2), "struct-not-deterministic-or-depends-on-features", desc)
        full = graph_to_views(ds, spec=replace(fs, struct_dim=n), seed=seed, cache=False).views["struct"].astype(np.float64)
        G = full @ full.T
        cross = comp[:, None] != comp[None, :]
        c.check(np.abs(G[cross]).max(initial=0) <= 1e-4 * (1 + np.abs(G).max()), "struct-mixes-components", desc)
        k = min(fs.struct_dim, n)
        c.check(np.abs(full[:, :k] @ full[:, :k].T - e[:, :k].astype(np.float64) @ e[:, :k].T).max(initial=0) <= 1e-3 * (1 + np.abs(G).max()), "struct-dim-changes-leading-part", desc)
    c.nontrivial((fs.views, n, g.n_edges, g.edge_weight is None, fs.diffusion_steps, fs.struct_method))


@M.scenario(quick=48, thorough=600)
def walk_bias(c):
    """Extreme node2vec biases: immediate return (p -> 0) or staying local (q -> inf) never relate nodes more than two steps apart."""
    kind = c.pick(["return", "local"])
    if kind == "return":
        n = c.py.randint(8, 30)
        e = [(i, i + 1) for i in range(n - 1)] + ([(n - 1, 0)] if c.chance(0.5) else [])
        p, q = 1e-9, c.pick([0.5, 1.0, 4.0])
    else:
        n = 3 * c.py.randint(4, 10)
        e = [x for i in range(0, n, 3) for x in [(i, i + 1), (i + 1, i + 2), (i, i + 2)] + ([(i + 2, i + 3)] if i + 3 < n else [])]
        p, q = c.pick([0.5, 1.0, 4.0]), 1e9
    perm = c.rng.permutation(n)
    ei = perm[np.array(e + [(b, a) for a, b in e]).T]
    D = np.full((n, n), 10**6)
    D[ei[0], ei[1]] = 1
    np.fill_diagonal(D, 0)
    for k in range(n):
        D = np.minimum(D, D[:, k : k + 1] + D[k : k + 1])
    g = GraphArtifact(n_nodes=n, edge_index=ei[:, c.rng.permutation(ei.shape[1])], edge_weight=None, directed=False, meta={})
    fs = GraphFeaturizerSpec(views=("struct",), struct_method="node2vec", struct_dim=n, walk_length=c.pick([8, 20]), num_walks_per_node=4, window_size=c.pick([3, 6]), p=p, q=q)
    seed = c.py.randrange(1000)
    gram = {}
    for m in ("node2vec", "deepwalk"):
        E = graph_to_views(node_ds(c, n, g), spec=replace(fs, struct_method=m), seed=seed, cache=False).views["struct"].astype(np.float64)
        gram[m] = np.abs(E @ E.T)[D > 2].max(initial=0)
    c.check(gram["node2vec"] < 1e-3, "walk-bias-ignored", f"{kind} n={n} p={p} q={q}: nodes more than two steps apart are related ({gram['node2vec']:.3g})")
    c.count("unbiased_walks_roam_further", int(gram["deepwalk"] > 1e-3))
    c.nontrivial((kind, n, fs.walk_length, fs.window_size, gram["deepwalk"] > 1e-3))


@M.scenario(quick=240, thorough=3000)
def cache_history(c):
    """Requests that share a view cache: other features, weights, edges, labels, masks, seeds or specs."""
    n = c.py.randint(4, 12)
    big = c.chance(0.25)
    if big:
        n = 60
    fp = c.pick([None, None, "graph-1"])
    g, _ = graph(c, n, fp=fp)
    if big:
        ei = c.rng.integers(0, n, size=(2, 1500))
        g = GraphArtifact(n_nodes=n, edge_index=ei, edge_weight=(c.rng.random(1500) + 0.1).astype(np.float32), meta=dict(g.meta))
    ds0 = node_ds(c, n, g)
    fs0 = spec(c, views=c.pick([("diffusion",), ("attr", "diffusion"), ("attr",)]) if big else None)
    root = c.tmp()
    ds, fs, seed = ds0, fs0, 3
    for step in range(c.py.randint(5, 9)):
        what = c.pick(["same", "X", "dtype", "weights", "edge", "rewire", "y", "masks", "spec", "seed", "rows"]) if step else "same"
        ds, fs, seed = ds0, fs0, 3
        gg = ds0.graph
        if what == "X":
            X = ds0.X.copy()
            X[c.py.randrange(n), 0] += 1.0
            ds = replace(ds0, X=X)
        elif what == "dtype":
            ds = replace(ds0, X=ds0.X.astype("float64" if ds0.X.dtype == np.float32 else "float32"))
        elif what == "rows":
            ds = replace(ds0, X=ds0.X[::-1].copy())
        elif what == "weights" and gg.n_edges:
            w = np.ones(gg.n_edges, np.float32) if gg.edge_weight is None else gg.edge_weight.copy()
            w[c.py.randrange(gg.n_edges)] *= 3
            ds = replace(ds0, graph=replace(gg, edge_weight=w, meta={} if fp is None else {"fingerprint": f"weights-{step}"}))
        elif what == "edge" and gg.n_edges:
            ei = gg.edge_index.copy()
            k = gg.n_edges - 1 if c.chance(0.5) else c.py.randrange(gg.n_edges)
            ei[1, k] = (ei[1, k] + 1) % n
            ds = replace(ds0, graph=replace(gg, edge_index=ei, meta={} if fp is None else {"fingerprint": f"edges-{step}"}))
        elif what == "rewire" and gg.n_edges:  # the same end points, joined otherwise
            ei = np.stack([gg.edge_index[0], c.rng.permutation(gg.edge_index[1])]) if c.chance(0.5) else gg.edge_index[::-1].copy()
            ds = replace(ds0, graph=replace(gg, edge_index=ei, meta={} if fp is None else {"fingerprint": f"rewired-{step}"}))
        elif what == "y":
            ds = replace(ds0, y=ds0.y + 1)
        elif what == "masks":
            ds = replace(ds0, masks={"train": ~ds0.masks["train"], "val": ds0.masks["train"]})
        elif what == "spec":
            f = c.pick(["diffusion_steps", "diffusion_alpha", "struct_dim", "walk_length", "window_size", "views"])
            fs = replace(fs0, **{f: {"diffusion_steps": fs0.diffusion_steps + 1, "diffusion_alpha": 0.3, "struct_dim": fs0.struct_dim + 1,
                                     "walk_length": fs0.walk_length + 1, "window_size": fs0.window_size + 1, "views": ("attr",) if fs0.views != ("attr",) else ("diffusion",)}[f]})
        elif what == "seed":
            seed = 4
        want = graph_to_views(ds, spec=fs, seed=seed, cache=False)
        got = graph_to_views(ds, spec=fs, seed=seed, cache=True, cache_dir=root)
        d = same_views(got, want)
        c.check(d is None, f"stale-views-{what}", f"step {step} ({what}) {fs.views} n={n} E={ds.graph.n_edges} fp={fp}: {d}")
        c.check(np.array_equal(got.y, ds.y) and set(got.masks) == set(ds.masks) and all(np.array_equal(got.masks[k], ds.masks[k]) for k in ds.masks), "stale-labels-or-masks", f"{what}")
        c.nontrivial((what, fs.views, fp, big))
        gen.perturb_global_rng(c)


@M.scenario(quick=240, thorough=3000)
def masks_and_exports(c):
    n = c.py.randint(1, 20)
    perm = c.rng.permutation(n)
    a, b = sorted([c.py.randint(0, n), c.py.randint(0, n)])
    tr, va, te = perm[:a], perm[a:b], perm[b:]
    lab = None if c.chance(0.3) else c.rng.permutation(tr)[: c.py.randint(0, len(tr))]
    m = masks_from_indices(n=n, train_idx=tr.tolist() if c.chance(0.5) else tr, val_idx=va, test_idx=te, labeled_idx=lab)
    for name, idx in (("train", tr), ("val", va), ("test", te)):
        c.check(sorted(np.flatnonzero(getattr(m, name)).tolist()) == sorted(idx.tolist()), "mask-wrong", f"{name}")
    unl = set(range(n)) - set(tr.tolist()) if lab is None else set(tr.tolist()) - set(lab.tolist())
    c.check(set(np.flatnonzero(m.unlabeled).tolist()) == unl, "mask-wrong", f"unlabeled (labeled_idx {'given' if lab is not None else 'absent'})")
    g, _ = graph(c, n)
    bad = c.pick([-1, n, -n, n + 3])
    kind = c.pick(["train_idx", "val_idx", "test_idx", "labeled_idx"])
    args = {"train_idx": tr, "val_idx": va, "test_idx": te, "labeled_idx": lab}
    args[kind] = [bad] if args[kind] is None else np.append(args[kind], bad)
    c.raises((GraphValidationError, ValueError), lambda: masks_from_indices(n=n, **args), "mask-index-accepted", f"{kind} with {bad} of {n}")
    ds = NodeDataset(X=c.rng.normal(size=(n, 2)).astype(c.pick(["float32", "float64"])), y=c.rng.integers(0, 3, n), graph=g, masks=m.as_dict())
    p = to_pyg_data(ds)
    c.check(p.x.numpy().dtype == ds.X.dtype and np.array_equal(p.x.numpy(), ds.X) and np.array_equal(p.y.numpy(), ds.y) and np.array_equal(p.edge_index.numpy(), g.edge_index), "pyg-export", "content")
    c.check((g.edge_weight is None) == (getattr(p, "edge_weight", None) is None) and (g.edge_weight is None or np.array_equal(p.edge_weight.numpy(), g.edge_weight)), "pyg-export", "weights")
    for k, v in ds.masks.items():
        c.check(np.array_equal(getattr(p, f"{k}_mask").numpy(), v), "pyg-export", k)
    A = adjacency_from_edge_index(n_nodes=n, edge_index=g.edge_index, edge_weight=g.edge_weight, format="csr").toarray()
    want = np.zeros((n, n))
    np.add.at(want, (g.edge_index[0], g.edge_index[1]), 1.0 if g.edge_weight is None else g.edge_weight)
    c.check(np.allclose(A, want, rtol=1e-5), "adjacency", "csr")
    if len(set(zip(*g.edge_index.tolist()))) == g.n_edges:
        B = adjacency_from_edge_index(n_nodes=n, edge_index=g.edge_index, edge_weight=g.edge_weight, format="dense")
        c.check(np.allclose(B, want, rtol=1e-5), "adjacency", "dense")
    c.nontrivial((n, a, b, lab is None, g.n_edges))
