"""G03: an interrupted or damaged graph cache never yields a wrong graph or wrong views."""
import os

import numpy as np
from modssc.graph import build_graph, graph_to_views
from modssc.graph.artifacts import GraphArtifact, NodeDataset
from modssc.graph.cache import GraphCache
from modssc.graph.specs import GraphBuilderSpec, GraphFeaturizerSpec, GraphWeightsSpec

from checks.G02 import same
from vf import crash
from vf.core import Module

M = Module(
    "G03",
    level="fault_enumeration",
    rule="Every mutating file operation of a cached graph build, view computation, overwriting save and purge is interrupted by kill, torn write, I/O error or full disk, "
    "and files of finished entries are deleted, emptied or truncated. Non-trivial: distinct (operation, storage form, injection point, kind) that took effect.",
    preload=["sklearn.neighbors", "modssc.graph", "scipy.sparse"],
)


def request(c):
    n = c.py.randint(5, 12)
    X = c.rng.normal(size=(n, 3)).astype(np.float32)
    s = GraphBuilderSpec(scheme=c.pick(["knn", "epsilon"]), metric="euclidean", k=2, radius=1.5, symmetrize=c.pick(["none", "or", "mutual"]),
                         weights=GraphWeightsSpec("heat", sigma=1.0), normalize=c.pick(["none", "rw"]), backend=c.pick(["numpy", "numpy", "sklearn"]), chunk_size=c.pick([2, 4, 100]))
    return X, s, c.pick([None, None, 3])


def budget(c):
    return 16 if c.tier == "quick" else 80


@M.scenario(quick=32, thorough=500)
def interrupted_build(c):
    X, s, shard = request(c)
    want = build_graph(X, spec=s, cache=False)
    fp = want.meta["fingerprint"]
    base = c.tmp()
    probe = crash.run(lambda: build_graph(X, spec=s, cache_dir=base / "probe", edge_shard_size=shard) and None, base / "probe")
    c.check(probe["status"] == "done", "cached-build-fails", f"{probe}")
    pts = crash.plan_points(probe["events"])
    c.py.shuffle(pts)
    for k, (at, mode, lim) in enumerate(pts[: budget(c)]):
        root = base / f"r{k}"
        root.mkdir()
        r = crash.run(lambda: build_graph(X, spec=s, cache_dir=root, edge_shard_size=shard) and None, root, at=at, mode=mode, limit=lim)
        where = f"build ({s.backend}, shard={shard}, chunk={s.chunk_size}) {mode}@{at} {probe['events'][at]} -> {r['status']}"
        if GraphCache(root=root).exists(fp):
            try:
                g = GraphCache(root=root).load(fp)[0]
            except Exception:  # an unreadable entry is reported, which is allowed right after a full disk
                c.check(r["status"] != "done", "finished-build-unreadable", where)
            else:
                d = same(g, want)
                c.check(d is None, "partial-graph-served", f"{where}: {d}")
        for again in range(2):
            g = build_graph(X, spec=s, cache_dir=root, edge_shard_size=c.pick([None, shard]))
            d = same(g, want)
            c.check(d is None, "later-build-differs", f"{where}: build {again} after it: {d}")
        if r["status"] != "done":
            c.nontrivial(("build", s.backend, shard, at, mode, lim))
            c.count("injections_effective")


@M.scenario(quick=24, thorough=400)
def interrupted_overwrite(c):
    """Overwriting save and purge: afterwards the old graph, the new graph, no entry, or an error."""
    n = 6
    def artifact(E, w):
        return GraphArtifact(n_nodes=n, edge_index=c.rng.integers(0, n, size=(2, E)), edge_weight=c.rng.random(E).astype(np.float32) if w else None, directed=True, meta={"E": E})

    old, new = artifact(c.pick([4, 9]), c.chance(0.7)), artifact(c.pick([5, 9]), c.chance(0.7))
    sh_old, sh_new = c.pick([None, 2]), c.pick([None, 3])
    op = c.pick(["save", "save", "purge"])
    base = c.tmp()

    def prepare(root):
        GraphCache(root=root, edge_shard_size=sh_old).save(fingerprint="f", graph=old, manifest={})

    def act(root):
        if op == "save":
            return lambda: GraphCache(root=root, edge_shard_size=sh_new).save(fingerprint="f", graph=new, manifest={}) and None
        return lambda: GraphCache(root=root).purge() and None

    prepare(base / "probe")
    probe = crash.run(act(base / "probe"), base / "probe")
    c.check(probe["status"] == "done", "operation-fails", f"{probe}")
    pts = crash.plan_points(probe["events"])
    c.py.shuffle(pts)
    for k, (at, mode, lim) in enumerate(pts[: budget(c)]):
        root = base / f"r{k}"
        prepare(root)
        r = crash.run(act(root), root, at=at, mode=mode, limit=lim)
        where = f"{op} over shard={sh_old} weights={old.edge_weight is not None} by shard={sh_new} weights={new.edge_weight is not None} {mode}@{at} {probe['events'][at]} -> {r['status']}"
        gc = GraphCache(root=root)
        if gc.exists("f"):
            try:
                g = gc.load("f")[0]
            except Exception:
                c.count("reported_unreadable")
            else:
                ok = [x for x in ((old,) if op == "purge" else (old, new)) if same(g, x) is None and g.meta == x.meta]
                c.check(ok, "mixed-graph-served", f"{where}: loaded E={g.n_edges} weights={g.edge_weight is not None} meta={g.meta}")
        gc.save(fingerprint="f", graph=new, manifest={})
        c.check(same(gc.load("f")[0], new) is None, "save-does-not-repair", where)
        if r["status"] != "done":
            c.nontrivial((op, sh_old, sh_new, at, mode, lim))
            c.count("injections_effective")


def node_dataset(c):
    X, s, _ = request(c)
    g = build_graph(X, spec=s, cache=False)
    n = g.n_nodes
    return NodeDataset(X=X, y=np.arange(n) % 2, graph=g, masks={"train_mask": np.arange(n) < 3})


def same_views(a, b):
    if list(a.views) != list(b.views) and set(a.views) != set(b.views):
        return f"names {list(a.views)} {list(b.views)}"
    for k in a.views:
        if a.views[k].dtype != b.views[k].dtype or not np.array_equal(a.views[k], b.views[k]):
            return f"view {k} differs"
    return None


@M.scenario(quick=16, thorough=250)
def interrupted_views(c):
    ds = node_dataset(c)
    fs = GraphFeaturizerSpec(views=c.pick([("attr", "diffusion"), ("diffusion", "struct"), ("struct",)]), struct_dim=3, walk_length=5, num_walks_per_node=2)
    want = graph_to_views(ds, spec=fs, cache=False)
    base = c.tmp()
    probe = crash.run(lambda: graph_to_views(ds, spec=fs, cache=True, cache_dir=base / "probe") and None, base / "probe")
    c.check(probe["status"] == "done", "cached-views-fail", f"{probe}")
    pts = crash.plan_points(probe["events"])
    c.py.shuffle(pts)
    for k, (at, mode, lim) in enumerate(pts[: budget(c)]):
        root = base / f"r{k}"
        root.mkdir()
        r = crash.run(lambda: graph_to_views(ds, spec=fs, cache=True, cache_dir=root) and None, root, at=at, mode=mode, limit=lim)
        where = f"views {fs.views} {mode}@{at} {probe['events'][at]} -> {r['status']}"
        for again in range(2):
            d = same_views(graph_to_views(ds, spec=fs, cache=True, cache_dir=root), want)
            c.check(d is None, "later-views-differ", f"{where}: call {again} after it: {d}")
        if r["status"] != "done":
            c.nontrivial(("views", fs.views, at, mode, lim))
            c.count("injections_effective")


@M.scenario(quick=50, thorough=900)
def damaged(c):
    """Deleted, emptied or truncated files of a finished entry: the right graph or an error, never another graph."""
    X, s, shard = request(c)
    want = build_graph(X, spec=s, cache=False)
    fp = want.meta["fingerprint"]
    base = c.tmp()
    build_graph(X, spec=s, cache_dir=base / "m", edge_shard_size=shard)
    files = sorted(os.path.relpath(os.path.join(d, f), base / "m") for d, _, fs in os.walk(base / "m") for f in fs)
    for k in range(6):
        root = base / f"r{k}"
        build_graph(X, spec=s, cache_dir=root, edge_shard_size=shard)
        f = root / c.pick(files)
        how = c.pick(["delete", "empty", "truncate", "truncate"])
        data = f.read_bytes()
        if how == "delete":
            f.unlink()
        else:
            f.write_bytes(data[: 0 if how == "empty" else c.py.randrange(len(data))])
        where = f"{f.name} {how} (shard={shard})"
        for act in ("load", "build"):
            try:
                g = GraphCache(root=root).load(fp)[0] if act == "load" else build_graph(X, spec=s, cache_dir=root)
            except Exception:
                c.count("damage_reported")
                continue
            d = same(g, want)
            c.check(d is None, "damaged-graph-served", f"{where}: {act}: {d}")
        GraphCache(root=root).purge()
        c.check(same(build_graph(X, spec=s, cache_dir=root), want) is None, "purge-does-not-repair", where)
        c.nontrivial(("damage", f.name, how, shard))
