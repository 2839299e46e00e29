"""D06: provider selection options select exactly the requested samples, fully aligned."""
from math import comb

import numpy as np
from modssc.data_loader import load_dataset

from vf import provreq, upstream
from vf.core import Module, short

M = Module(
    "D06",
    rule="Random requests with class filters, sample limits, seeds, column choices and test-split preferences over all providers; "
    "upstream rows carry their own index, so every returned row is traced back. Non-trivial: requests whose selection keeps "
    "some but not all rows.",
    preload=["torch_geometric.datasets", "torchvision.datasets", "torchaudio.datasets", "datasets"],
)


def want_count(labels, o, key):
    f = o.get("class_filter")
    if f is not None:
        f = list(f) if isinstance(f, (list, tuple)) else [f]
        keep = [i for i, v in enumerate(labels) if v in f]
    else:
        keep = list(range(len(labels)))
    m = o.get(key)
    n = len(keep) if m is None else max(0, min(len(keep), int(m)))
    return keep, n, m is not None and n < len(keep)


def judge_part(c, split, labels, o, key, prov, part):
    keep, n, cut = want_count(labels, o, key)
    y = list(np.asarray(split.y))
    c.check(len(y) == n and np.asarray(split.X).shape[0] == n, "count", lambda: f"{part}: {len(y)} labels, {np.asarray(split.X).shape[0]} rows, want {n} of {len(keep)} ({o})")
    ids = provreq.rows(split.X, prov)
    for (p, i), v in zip(ids, y):
        c.check(p in ("?", part), "wrong-part", lambda: f"row of {p} in {part}")
        c.check(0 <= i < len(labels) and labels[i] == v, "misaligned", lambda: f"{part}: row {i} has label {v}, upstream says {labels[i] if 0 <= i < len(labels) else None}")
        c.check(i in keep, "filter", lambda: f"{part}: row {i} (label {v}) outside class_filter {o.get('class_filter')}")
    idx = [i for _, i in ids]
    c.check(len(set(idx)) == len(idx), "duplicate-rows", lambda: f"{part}: {idx}")
    if not cut and (o.get(key) is None or o.get("seed") is None):
        c.check(idx == keep, "order", lambda: f"{part}: {idx}")
    elif cut and o.get("seed") is None:
        c.check(idx == keep[:n], "unseeded-limit", lambda: f"{part}: {idx}")
    if 0 < n < len(labels):
        c.nontrivial([prov, part, sorted(map(str, o.items())), idx[:5]])
    c.count("rows_traced", n)
    return idx


@M.scenario(quick=420, thorough=9000)
def selection(c):
    while True:
        prov, ref, o = provreq.request(c)
        if prov not in ("toy", "pyg"):
            break
    up = upstream.Up(n_train=c.pick([5, 20, 40]), n_test=c.pick([3, 17]), n_classes=c.pick([1, 2, 4]))
    c.note = {"ref": ref, "options": o}
    root = c.tmp()
    with upstream.installed(up):
        ds = load_dataset(ref, cache_dir=root, options=o)
        again = load_dataset(ref, cache_dir=root, options=o)
        k1 = "max_samples" if prov == "openml" else "max_train_samples"
        tr = judge_part(c, ds.train, provreq.upstream_labels(up, prov, ref, o, "train"), o, k1, prov, "train")
        part = None if prov == "openml" or ref.endswith("VFAudio2") else "test"
        if prov == "hf" and not o.get("prefer_test_split", True):
            part = "validation"
        c.check((ds.test is None) == (part is None), "test-part", f"expected {part}")
        te = None
        if part:
            te = judge_part(c, ds.test, provreq.upstream_labels(up, prov, ref, o, part), o, "max_test_samples", prov, part if prov == "hf" else "test")
        if prov == "hf":
            col = o.get("text_column", "text")
            c.check(all(x.startswith("('hf2'" if col == "body" else "('hf'") for x in list(ds.train.X)), "wrong-column", col)
        c.check(provreq.norm(again, root) == provreq.norm(ds, root), "cached-differs", ref)
        # seeded draws are reproducible and really depend on the seed
        if o.get("seed") is not None:
            r2 = c.tmp()
            c.check(provreq.norm(load_dataset(ref, cache_dir=r2, options=o), r2) == provreq.norm(ds, root), "seed-unstable", ref)
            keep, n, cut = want_count(provreq.upstream_labels(up, prov, ref, o, "train"), o, k1)
            if cut and 3 <= n <= len(keep) - 10:
                seen = set()
                for s in range(6):
                    d = load_dataset(ref, cache_dir=c.tmp(), options={**o, "seed": s})
                    seen.add(tuple(i for _, i in provreq.rows(d.train.X, prov)))
                    head = tuple(keep[:n])
                    c.check(comb(len(keep), n) < 10**7 or tuple(i for _, i in provreq.rows(d.train.X, prov)) != head, "seed-ignored", lambda: f"{ref} {o}: seed {s} selects the first rows, as if unseeded")
                c.check(len(seen) > 1, "seed-ignored", lambda: f"{ref} {o}: six seeds select {seen}")
                c.count("seed_sweeps")
    c.sample({"ref": ref, "options": o, "train_rows": tr[:8], "test_rows": (te or [])[:8]})


@M.scenario(quick=200, thorough=4000)
def graphs(c):
    o = {}
    if c.chance(0.7):
        o["max_nodes"] = c.pick([1, 3, 8, 20, 1000])
    if c.chance(0.5):
        o["class_filter"] = c.py.sample([0, 1, 2, 3], c.py.randint(1, 3))
    if c.chance(0.6):
        o["seed"] = c.py.randrange(5)
    ref = "pyg:VFGraph" + c.pick(["", "/a", "/b"])
    up = upstream.Up(n_train=c.pick([6, 20, 40]), n_classes=c.pick([2, 4]))
    X, y, ei, masks = up.graph(("pyg", ref.partition("/")[2] or "a"))
    c.note = {"ref": ref, "options": o}
    with upstream.installed(up):
        root = c.tmp()
        ds = load_dataset(ref, cache_dir=root, options=o)
        if o.get("seed") is not None:
            r2 = c.tmp()
            c.check(provreq.norm(load_dataset(ref, cache_dir=r2, options=o), r2) == provreq.norm(ds, root), "seed-unstable", ref)
    keep = [i for i, v in enumerate(y) if "class_filter" not in o or v in o["class_filter"]]
    n = min(len(keep), o.get("max_nodes", len(keep)))
    s = ds.train
    c.check(len(s.y) == n and len(s.X) == n, "count", lambda: f"{len(s.y)} nodes, want {n}")
    idx = [int(i) for i in np.asarray(s.X)[:, 0]] if n else []
    c.check(len(set(idx)) == n and set(idx) <= set(keep), "node-selection", lambda: f"{idx}")
    c.check(np.array_equal(np.asarray(s.X), X[idx]) and np.array_equal(np.asarray(s.y), y[idx]), "misaligned", "features or labels of other nodes")
    if n == len(keep) or o.get("seed") is None:
        c.check(idx == keep[:n], "order", lambda: f"{idx}")
    if n:
        for k, m in masks.items():
            c.check(s.masks is not None and np.array_equal(np.asarray(s.masks[k], bool), m[idx]), "mask-misaligned", k)
        pos = {v: i for i, v in enumerate(idx)}
        want = sorted((pos[a], pos[b]) for a, b in ei.T.tolist() if a in pos and b in pos)
        got = sorted(map(tuple, np.asarray(s.edges).T.tolist()))
        c.check(got == want, "edges", lambda: f"induced edges {want[:6]}.. got {got[:6]}..")
        c.count("edges_traced", len(want))
    if 0 < n < len(y):
        c.nontrivial([ref, sorted(map(str, o.items())), idx])
