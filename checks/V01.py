"""V01: feature views are exactly the requested columns of the (preprocessed) data, for train and test alike."""
import copy
import math

import numpy as np
from modssc.data_loader.types import LoadedDataset, Split
from modssc.preprocess import preprocess
from modssc.preprocess.plan import PreprocessPlan
from modssc.views import generate_views
from modssc.views.errors import ViewsValidationError
from modssc.views.plan import ColumnSelectSpec, ViewSpec, ViewsPlan, two_view_random_feature_split

from vf import gen, ppgen
from vf.core import Module
from vf.xproc import fresh_process

M = Module(
    "V01",
    rule="Generated plans of 2-5 views (all, listed, random, complement columns; with and without preprocessing) run on array and dict features; each view is compared "
    "with the columns the plan names, recomputed independently. Non-trivial: distinct (plan shape, feature count, container).",
    preload=["torch", "sklearn.preprocessing", "modssc.views", "modssc.preprocess"],
)


def make_ds(c, form, n, m, d, test=True):
    tail = (c.py.randint(1, 3),) if form == "3d" else ()

    def X(k):
        a = c.rng.normal(size=(k, d, *tail)).astype(c.pick(["float32", "float64"]))
        if form == "int":
            a = c.rng.integers(0, 9, size=(k, d))
        if form == "dict":
            return {"x": a, "edge_index": np.array([[0, 1], [1, 0]]), "other": "kept"}
        if form == "torch":
            import torch

            return torch.as_tensor(a)
        return a

    def part(k):
        masks = {"train_mask": c.rng.random(k) < 0.5} if form == "dict" else None
        edges = np.array([[0, 1], [1, 0]]) if form == "dict" else None
        return Split(X=X(k), y=c.rng.integers(0, 3, k), edges=edges, masks=masks)

    meta = {"modality": "tabular", "dataset_fingerprint": f"v{c.index}"}
    if c.chance(0.3):
        meta["views"] = {"earlier": {"columns": [0]}}
        meta["view_meta"] = {"earlier": {"role": "x"}}
    return LoadedDataset(train=part(n), test=part(m) if test else None, meta=meta)


def feats(X):
    if isinstance(X, dict):
        X = X["x"]
    return X.numpy() if hasattr(X, "numpy") else np.asarray(X)


def specs(c, d, k):
    out, names = [], []
    pool = c.py.sample(["a", "b", "view_a", "view b", "é", "0", "left", "right"], k)
    for name in pool:
        mode = c.pick(["all", "indices", "random", "random", "complement", None])
        if mode == "complement" and not names:
            mode = "random"
        if mode is None:
            cs = None
        elif mode == "indices":
            cs = ColumnSelectSpec(mode="indices", indices=tuple(c.py.sample(range(d), c.py.randint(1, d))))
        elif mode == "random":
            cs = ColumnSelectSpec(mode="random", fraction=c.pick([0.01, 0.25, 0.5, 0.75, 1.0, round(c.py.uniform(0.05, 1), 3)]), seed_offset=c.pick([0, 0, 1, 7, 100, 2**20]))
        elif mode == "complement":
            cs = ColumnSelectSpec(mode="complement", complement_of=c.pick(names))
        else:
            cs = ColumnSelectSpec()
        out.append(ViewSpec(name=name, columns=cs, meta={"role": name} if c.chance(0.4) else None))
        names.append(name)
    return out


def judge(c, r, ds, plan, src, desc):
    """src: view name -> (train X, test X) the columns are taken from."""
    c.check(list(r.views) == [v.name for v in plan.views] == list(r.columns), "view-names", desc)
    for v in plan.views:
        tr, te = src[v.name]
        d = tr.shape[1]
        cols = np.asarray(r.columns[v.name])
        c.check(cols.ndim == 1 and cols.size and cols.dtype.kind == "i" and cols.min() >= 0 and cols.max() < d and (np.diff(cols) > 0).all(),
                "columns-invalid", f"{desc}: {v.name}: {cols} of {d}")
        cs = v.columns
        if cs is None or cs.mode == "all":
            want = np.arange(d)
        elif cs.mode == "indices":
            want = np.sort(np.array(cs.indices))
        elif cs.mode == "complement":
            want = np.setdiff1d(np.arange(d), r.columns[cs.complement_of])
        else:
            want = None
            f = cs.fraction * d
            c.check(abs(len(cols) - max(1, f)) <= 0.5 + 1e-9, "random-size", f"{desc}: {v.name}: {len(cols)} columns for fraction {cs.fraction} of {d}")
        if want is not None:
            c.check(np.array_equal(cols, want), "columns-wrong", f"{desc}: {v.name}: {cols} != {want}")
        out = r.views[v.name]
        for part, X in (("train", tr), ("test", te)):
            o = getattr(out, part)
            if X is None:
                c.check(o is None, "test-invented", desc)
                continue
            got = feats(o.X)
            c.check(ppgen.diff(got, X[:, cols]) is None, "view-content", f"{desc}: {v.name}.{part} is not X[:, {cols}]")
        c.check(out.meta["views"][v.name]["columns"] == cols.tolist(), "meta-columns", f"{desc}: {v.name}")
        if v.meta:
            c.check(out.meta["view_meta"][v.name] == v.meta, "meta-view", f"{desc}: {v.name}")


@M.scenario(quick=260, thorough=8000)
def columns(c):
    form = c.pick(["2d", "2d", "int", "dict", "torch", "3d"])
    d = c.pick([1, 2, 3, 5, 8, 13, 30])
    ds = make_ds(c, form, c.py.randint(2, 12), c.py.randint(1, 6), d, test=c.chance(0.7))
    plan = ViewsPlan(views=tuple(specs(c, d, c.py.randint(2, 5))))
    seed = c.pick([0, 1, 5, 12345, 2**31 - 1, 2**40])
    desc = f"{form} d={d} seed={seed} {[(v.name, v.columns) for v in plan.views]}"
    before = gen.digest([ds.train.X, ds.train.y, None if ds.test is None else ds.test.X, ds.meta])
    state = gen.rng_state_digest()
    try:
        r = generate_views(ds, plan=plan, seed=seed, cache=False)
    except ViewsValidationError as e:
        c.check("is empty" in str(e) or any(v.columns and v.columns.mode == "complement" for v in plan.views), "valid-plan-rejected", f"{desc}: {e}")
        c.count("empty_complements")
        return
    c.check(gen.rng_state_digest() == state, "global-rng-touched", desc)
    c.check(gen.digest([ds.train.X, ds.train.y, None if ds.test is None else ds.test.X, ds.meta]) == before, "input-changed", desc)
    src = {v.name: (feats(ds.train.X), None if ds.test is None else feats(ds.test.X)) for v in plan.views}
    judge(c, r, ds, plan, src, desc)
    for v in r.views.values():
        for part in ("train", "test"):
            a, b = getattr(v, part), getattr(ds, part)
            if b is None:
                continue
            c.check(np.array_equal(a.y, b.y) and (a.edges is b.edges or np.array_equal(a.edges, b.edges)), "labels-or-edges-changed", desc)
            c.check((a.masks is None) == (b.masks is None) and (b.masks is None or all(np.array_equal(a.masks[k], b.masks[k]) for k in b.masks)), "masks-changed", desc)
            if isinstance(b.X, dict):
                c.check(isinstance(a.X, dict) and set(a.X) == set(b.X) and a.X["other"] == "kept" and np.array_equal(a.X["edge_index"], b.X["edge_index"]), "dict-features-lost", desc)
    # same request again, other global state
    gen.perturb_global_rng(c)
    r2 = generate_views(ds, plan=plan, seed=seed, cache=False)
    c.check(all(np.array_equal(r2.columns[k], r.columns[k]) for k in r.columns), "not-deterministic", desc)
    # a random view does not depend on which other views the plan has
    rv = [v for v in plan.views if v.columns is not None and v.columns.mode == "random"]
    if rv:
        v = c.pick(rv)
        alone = generate_views(ds, plan=ViewsPlan(views=(ViewSpec(name="zz"), v)), seed=seed, cache=False)
        c.check(np.array_equal(alone.columns[v.name], r.columns[v.name]), "depends-on-other-views", f"{desc}: {v.name}")
        if d >= 13 and 0.2 < v.columns.fraction < 0.8:
            others = [generate_views(ds, plan=ViewsPlan(views=(ViewSpec(name="zz"), v)), seed=seed + 1 + i, cache=False).columns[v.name] for i in range(4)]
            c.check(any(not np.array_equal(o, r.columns[v.name]) for o in others), "seed-ignored", f"{desc}: {v.name}")
            w = [ColumnSelectSpec(mode="random", fraction=v.columns.fraction, seed_offset=v.columns.seed_offset + 1 + i) for i in range(4)]
            offs = [generate_views(ds, plan=ViewsPlan(views=(ViewSpec(name="zz"), ViewSpec(name=v.name, columns=s))), seed=seed, cache=False).columns[v.name] for s in w]
            c.check(any(not np.array_equal(o, r.columns[v.name]) for o in offs), "seed-offset-ignored", f"{desc}: {v.name}")
            c.count("reseeded")
    c.nontrivial((form, d, [(v.columns.mode if v.columns else None) for v in plan.views]))


@M.scenario(quick=12, thorough=300)
def draws_differ(c):
    """Distinct names, seeds and offsets draw distinct columns; none depends on the process."""
    d, K = 40, 60
    ds = make_ds(c, "2d", 4, 2, d)
    off, seed = c.pick([0, 5]), c.py.randrange(10**6)
    nm = [f"v{i}" if i % 2 else f"view {'x' * (i % 7)}{i}" for i in range(K)]
    rnd = lambda o=off: ColumnSelectSpec(mode="random", fraction=0.5, seed_offset=o)
    by_name = generate_views(ds, plan=ViewsPlan(views=tuple(ViewSpec(name=x, columns=rnd()) for x in nm)), seed=seed, cache=False).columns
    two = lambda s, o: generate_views(ds, plan=ViewsPlan(views=(ViewSpec(name="zz"), ViewSpec(name="a", columns=rnd(o)))), seed=s, cache=False).columns["a"]
    seeds = sorted({seed + i for i in range(20)} | {seed + 2**i for i in range(32)} | {seed + i * 1000 for i in range(8)})
    for what, cols in (("names", list(by_name.values())), ("seeds", [two(s, off) for s in seeds]), ("seed offsets", [two(seed, o) for o in sorted({*range(20), *(2**i for i in range(20))})])):
        c.check(len({tuple(x.tolist()) for x in cols}) == len(cols), "draws-coincide", lambda what=what, cols=cols: f"{len(cols)} {what} drew only {len({tuple(x.tolist()) for x in cols})} column sets")
        c.count("column_draws", len(cols))
    use = np.mean([np.isin(np.arange(d), x) for x in by_name.values()], axis=0)
    c.check(np.abs(use - 0.5).max() < 6 * 0.5 / np.sqrt(K) + 0.02, "drawn-by-position", lambda: f"columns are drawn with frequencies {use.round(2).tolist()}")
    c.nontrivial((off, seed))


def xproc_run(payload):
    out = []
    for seed, off, names in payload:
        ds = LoadedDataset(train=Split(X=np.zeros((3, 25)), y=np.arange(3)), test=None, meta={"dataset_fingerprint": "p", "modality": "tabular"})
        vs = tuple(ViewSpec(name=n, columns=ColumnSelectSpec(mode="random", fraction=0.4, seed_offset=off)) for n in names)
        out.append([v.tolist() for v in generate_views(ds, plan=ViewsPlan(views=vs), seed=seed, cache=False).columns.values()])
    return out


@M.scenario(quick=3, thorough=20)
def fresh_interpreter(c):
    payload = [[c.py.randrange(1000), c.pick([0, 3]), c.py.sample(["a", "b", "view_a", "é", "left", "right"], 3)] for _ in range(30)]
    here, there = xproc_run(payload), fresh_process("checks.V01", "xproc_run", payload)
    for p, a, b in zip(payload, here, there):
        c.check(a == b, "columns-depend-on-the-process", lambda: f"{p}: {a} here, {b} in a fresh interpreter")
    c.nontrivial(payload)


@M.scenario(quick=25, thorough=300)
def undefined_complement(c):
    """The complement of a view over other features is refused, whichever of the two is wider."""
    d = c.py.randint(6, 20)
    ds, _, _ = ppgen.dataset(c, "tabular", test=True, fp=f"u{c.index}-{c.seed}")
    d = feats(ds.train.X).shape[1]
    k = c.pick([max(1, d - 1), d + 3, 1])
    if k == d:
        return
    proj = PreprocessPlan(steps=(ppgen.S("core.ensure_2d"), ppgen.S("core.random_projection", n_components=k)))
    first, second = c.pick([(proj, None), (None, proj)])
    plan = ViewsPlan(views=(ViewSpec(name="a", preprocess=first, columns=ColumnSelectSpec(mode="indices", indices=(0,))),
                            ViewSpec(name="b", preprocess=second, columns=ColumnSelectSpec(mode="complement", complement_of="a"))))
    c.raises(ViewsValidationError, lambda: generate_views(ds, plan=plan, seed=0, cache=False), "complement of another feature space")
    c.nontrivial((d, k, first is None))


@M.scenario(quick=60, thorough=1500)
def two_views(c):
    d = c.py.randint(2, 40)
    ds = make_ds(c, c.pick(["2d", "dict"]), 5, 3, d)
    frac = c.pick([0.1, 0.3, 0.5, 0.5, 0.9])
    seed = c.py.randrange(1000)
    plan = two_view_random_feature_split(fraction=frac, seed_offset=c.pick([0, 3]), name_a=c.pick(["view_a", "left"]))
    try:
        r = generate_views(ds, plan=plan, seed=seed, cache=False)
    except ViewsValidationError:
        c.check(round(frac * d) >= d, "valid-plan-rejected", f"d={d} frac={frac}")
        return
    a, b = r.columns.values()
    c.check(np.array_equal(np.sort(np.concatenate([a, b])), np.arange(d)), "not-a-partition", f"d={d} frac={frac}: {a} | {b}")
    judge(c, r, ds, plan, {v.name: (feats(ds.train.X), feats(ds.test.X)) for v in plan.views}, f"two_view d={d}")
    c.nontrivial((d, frac))


@M.scenario(quick=90, thorough=2500)
def with_preprocessing(c):
    """A preprocessed view equals preprocessing by hand followed by column selection; cached or not."""
    ds, _, _ = ppgen.dataset(c, "tabular", test=c.chance(0.8), fp=f"v{c.index}-{c.seed}")
    n = len(ds.train.y)
    views, src, fit = [], {}, None
    if c.chance(0.6):
        fit = np.sort(c.rng.choice(n, size=max(3, n // 2), replace=False))
    seed = c.py.randrange(50)
    for i in range(c.py.randint(2, 3)):
        p = ppgen.plan(c, "tabular", 1, 4) if c.chance(0.8) else None
        try:
            out = ds if p is None else preprocess(ds, p, seed=seed, fit_indices=np.arange(n) if fit is None else fit, cache=False).dataset
        except Exception:
            return
        tr, te = feats(out.train.X), None if out.test is None else feats(out.test.X)
        if tr.ndim < 2 or tr.shape[1] < 1 or tr.dtype == object:
            return
        cs = c.pick([None, ColumnSelectSpec(mode="random", fraction=0.5), ColumnSelectSpec(mode="indices", indices=(tr.shape[1] - 1,))])
        views.append(ViewSpec(name=f"v{i}", preprocess=p, columns=cs))
        src[f"v{i}"] = (tr, te)
    plan = ViewsPlan(views=tuple(views))
    desc = f"{[(v.name, v.preprocess and [(s.step_id, dict(s.params)) for s in v.preprocess.steps], v.columns) for v in views]} seed={seed} fit={'all' if fit is None else 'subset'}"
    for cache in (False, True, True):
        r = generate_views(ds, plan=plan, seed=seed, cache=cache, fit_indices=fit)
        judge(c, r, ds, plan, src, f"{desc} cache={cache}")
        for v in r.views.values():
            c.check(len(v.train.y) == n, "labels-or-edges-changed", desc)
    c.nontrivial([v.preprocess and [s.step_id for s in v.preprocess.steps] for v in views])
