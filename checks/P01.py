"""P01: whatever the history of a preprocessing cache, every request gets what an uncached run gives."""
import numpy as np
import modssc.preprocess.cache as pcache
from modssc.preprocess import preprocess

from vf import ppgen
from vf.core import Module

M = Module(
    "P01",
    rule="Histories of 8-14 preprocess requests share one cache folder: plans that differ in one step, parameter, order or output key, "
    "different seeds, fit subsets, datasets and purge settings. Each cached result (data set and artifacts) is compared with an uncached run of the "
    "same request. Non-trivial: distinct (request, position in history) where at least one cached step output was reused.",
    preload=["torch", "sklearn.preprocessing", "sklearn.impute", "sklearn.feature_extraction.text", "modssc.preprocess"],
)


class Loads:
    """Observer of the number of step outputs served from the cache (public method of CacheManager)."""

    def __init__(self):
        self.n = 0

    def __enter__(self):
        self.orig = pcache.CacheManager.load_step_outputs
        me = self

        def wrapped(self_, *a, **k):
            out = me.orig(self_, *a, **k)
            me.n += 1
            return out

        pcache.CacheManager.load_step_outputs = wrapped
        return self

    def __exit__(self, *a):
        pcache.CacheManager.load_step_outputs = self.orig


def fit_options(c, n):
    a = np.sort(c.rng.choice(n, size=max(2, n // 2), replace=False))
    b = a.copy()
    b[0] = int(c.rng.integers(0, n))
    return [np.arange(n), a, b, a[::-1].copy(), None if c.chance(0.3) else a[:-1]]


@M.scenario(quick=300, thorough=6000)
def history(c):
    modality = ppgen.MODALITIES[c.index % len(ppgen.MODALITIES)]
    ds1, _, shape = ppgen.dataset(c, modality, fp="ds-a")
    ds2, _, _ = ppgen.dataset(c, modality, fp="ds-b", shape=shape, n=len(ds1.train.y), test=ds1.test is not None)
    ds3 = type(ds1)(train=ds1.train, test=None, meta=dict(ds1.meta)) if c.chance(0.5) else ds1
    n = len(ds1.train.y)
    fits = fit_options(c, n)
    plans = [ppgen.accepted(c, ds1, lambda: ppgen.plan(c, modality))]
    for _ in range(4):
        plans.append(ppgen.accepted(c, ds1, lambda: ppgen.mutate(c, c.pick(plans), modality)))
    root = c.tmp()
    if c.chance(0.15) and hasattr(pcache, "MMAP_THRESHOLD_BYTES"):
        thr, pcache.MMAP_THRESHOLD_BYTES = pcache.MMAP_THRESHOLD_BYTES, 1
    else:
        thr = None
    memo = {}
    try:
        for step in range(c.py.randint(8, 14)):
            di = c.pick([0, 0, 0, 0, 1, 2])
            pi, fi = c.py.randrange(len(plans)), c.pick([0, 0, 1, 2, 3, 4])
            seed, purge = c.pick([0, 0, 0, 5]), c.chance(0.25)
            ds = (ds1, ds2, ds3)[di]
            key = (di, pi, fi, seed, purge)

            def request(**kw):
                return preprocess(ds, plans[pi], seed=seed, fit_indices=fits[fi], purge_unused_artifacts=purge, **kw)

            if key not in memo:
                memo[key] = ppgen.attempt(lambda: request(cache=False))
            want = memo[key]
            with Loads() as ld:
                got = ppgen.attempt(lambda: request(cache=True, cache_dir=str(root)))
            desc = f"request {step} plan={[(s.step_id, dict(s.params)) for s in plans[pi].steps]} out={plans[pi].output_key} seed={seed} fit={fi} purge={purge} ds={di}"
            c.count("requests")
            c.count("step_outputs_from_cache", ld.n)
            c.check(got[0] == want[0], "cached-outcome-differs", lambda: f"{desc}: cached run {got[0]} ({got[1] if got[0] == 'err' else ''}), uncached {want[0]} ({want[1] if want[0] == 'err' else ''})")
            if want[0] == "err":
                c.count("rejected_requests")
                continue
            d = ppgen.diff(ppgen.view(got[1]), ppgen.view(want[1]), rtol=1e-5)
            c.check(d is None, "cached-result-differs", f"{desc}: {d}")
            d = ppgen.diff(ppgen.artifacts(got[1]), ppgen.artifacts(want[1]), rtol=1e-5)
            c.check(d is None, "cached-artifact-differs", f"{desc}: {d}")
            c.check(got[1].preprocess_fingerprint == want[1].preprocess_fingerprint, "fingerprint-depends-on-cache", desc)
            if ld.n:
                c.nontrivial((modality, [s.step_id for s in plans[pi].steps], key, step))
    finally:
        if thr is not None:
            pcache.MMAP_THRESHOLD_BYTES = thr
    c.sample({"modality": modality, "plans": [[s.step_id for s in p.steps] for p in plans]})


def variants(c, modality, step):
    """Steps of the same id with other parameters, and other steps that may stand in its place."""
    out = []
    for _ in range(40):
        s = ppgen.random_step(c, modality)
        if s.step_id == step.step_id and dict(s.params) != dict(step.params):
            out.append(s)
    return out[:2] + [ppgen.random_step(c, modality)]


@M.scenario(quick=700, thorough=15000)
def upstream_matters(c):
    """Two plans that differ in one earlier step share a cache: what a later step read must have come from its own plan."""
    modality = ppgen.MODALITIES[c.index % len(ppgen.MODALITIES)] if c.index % 3 else "graph"
    ds, _, _ = ppgen.dataset(c, modality, fp="ds-a")
    n = len(ds.train.y)
    fit = np.sort(c.rng.choice(n, size=max(2, n // 2), replace=False))
    core, lab, spec = ppgen.step_pool(c, modality)

    def make():
        pre = [c.pick(c.pick([spec, spec, core, lab]))() for _ in range(c.py.randint(1, 2))]
        last = c.pick(c.pick([spec, spec, core, lab, None]) or [lambda: ppgen.S("core.to_torch", input_key=c.pick(["raw.X", "features.X", "labels.y", "graph.edge_weight", "tokens.input_ids", "raw.y"]), dtype="float32")])()
        steps = ([ppgen.starter(c, modality)] if c.chance(0.5) else []) + pre + [last]
        if c.chance(0.3):
            steps.append(ppgen.random_step(c, modality))
        return ppgen.PreprocessPlan(steps=tuple(steps), output_key="features.X")

    a = ppgen.accepted(c, ds, make)
    root = c.tmp()
    k = c.py.randrange(max(1, len(a.steps) - 1))
    plans = [a]
    for s in variants(c, modality, a.steps[k]):
        plans.append(ppgen.PreprocessPlan(steps=a.steps[:k] + (s,) + a.steps[k + 1:], output_key=a.output_key))
    purge = c.chance(0.3)
    for p in [*plans, a]:
        want = ppgen.attempt(lambda: preprocess(ds, p, seed=1, fit_indices=fit, purge_unused_artifacts=purge, cache=False))
        with Loads() as ld:
            got = ppgen.attempt(lambda: preprocess(ds, p, seed=1, fit_indices=fit, purge_unused_artifacts=purge, cache=True, cache_dir=str(root)))
        desc = f"{[(s.step_id, dict(s.params)) for s in p.steps]} after {[(s.step_id, dict(s.params)) for s in a.steps]} purge={purge}"
        c.check(got[0] == want[0], "cached-outcome-differs", lambda: f"{desc}: cached {got[0]} ({got[1] if got[0] == 'err' else ''}), uncached {want[0]} ({want[1] if want[0] == 'err' else ''})")
        c.count("step_outputs_from_cache", ld.n)
        if want[0] == "err":
            c.count("rejected_requests")
            continue
        for f in (ppgen.view, ppgen.artifacts):
            d = ppgen.diff(f(got[1]), f(want[1]), rtol=1e-5)
            c.check(d is None, "cached-result-differs", f"{desc}: {d}")
    c.nontrivial((modality, [s.step_id for s in a.steps], k, [p.steps[k].step_id for p in plans]))
