"""P04: an interrupted or damaged preprocessing cache never changes a later result and never blocks later runs."""
import os

import numpy as np
from modssc.preprocess import preprocess
from modssc.preprocess.plan import PreprocessPlan

from vf import crash, ppgen
from vf.core import Module

M = Module(
    "P04",
    level="fault_enumeration",
    rule="Every mutating file operation of a cached preprocess run is interrupted by kill, torn write, I/O error or full disk; files of a populated cache are "
    "deleted, truncated or replaced by garbage; afterwards the same and related requests must succeed with the uncached result. "
    "Non-trivial: distinct (plan, injection point or damaged file, kind) that took effect.",
    preload=["torch", "sklearn.preprocessing", "sklearn.impute", "sklearn.feature_extraction.text", "modssc.preprocess"],
)


def workload(c, modality):
    """A plan with several value kinds in its cache: arrays, tensors, sparse, JSON, random steps with a test split."""
    S = ppgen.S
    fixed = {
        "tabular": [S("core.ensure_2d"), S("core.random_projection", n_components=3), S("labels.encode"), S("core.to_torch"), S("labels.to_torch")],
        "text": [S("text.ensure_strings"), S("text.tfidf"), S("labels.to_numpy")],
        "graph": [S("graph.attach_edge_weight"), S("graph.edge_sparsify", keep_fraction=0.5), S("core.copy_raw"), S("labels.encode")],
        "audio": [S("core.copy_raw"), S("audio.load_waveform", max_length=10), S("labels.to_torch") if False else S("labels.encode")],
    }[modality]
    return PreprocessPlan(steps=tuple(fixed), output_key="features.X")


MODS = ["tabular", "text", "graph", "audio"]


def judge(c, ds, plan, fit, root, want, where):
    for k in range(2):
        got = ppgen.attempt(lambda: preprocess(ds, plan, fit_indices=fit, cache_dir=str(root)))
        c.check(got[0] == "ok", "later-run-fails", f"{where}: run {k} after it: {got[1]}")
        d = ppgen.diff(ppgen.view(got[1]), ppgen.view(want), rtol=1e-5) or ppgen.diff(ppgen.artifacts(got[1]), ppgen.artifacts(want), rtol=1e-5)
        c.check(d is None, "later-run-differs", f"{where}: run {k} after it: {d}")


def setup(c, modality):
    ds, _, shape = ppgen.dataset(c, modality, test=True, ykind=c.pick(["int", "gap"]))
    plan = workload(c, modality) if c.chance(0.7) else ppgen.accepted(c, ds, lambda: ppgen.plan(c, modality, 2, 4))
    fit = np.arange(len(ds.train.y))
    r = ppgen.attempt(lambda: preprocess(ds, plan, fit_indices=fit, cache=False))
    if r[0] == "err":
        return None
    return ds, plan, fit, r[1]


@M.scenario(quick=32, thorough=400)
def interrupted(c):
    modality = MODS[c.index % 4]
    s = setup(c, modality)
    if s is None:
        c.count("rejected_requests")
        return
    ds, plan, fit, want = s
    base = c.tmp()

    def act(root):
        def f():
            preprocess(ds, plan, fit_indices=fit, cache_dir=str(root))
        return f

    probe = crash.run(act(base / "probe"), base / "probe")
    if probe["status"] != "done":
        c.fail("cached-run-fails", f"{modality}: {probe.get('error')}: {probe.get('message')}")
    pts = crash.plan_points(probe["events"])
    c.py.shuffle(pts)
    ids = [x.step_id for x in plan.steps]
    budget = 14 if c.tier == "quick" else 60
    for k, (at, mode, lim) in enumerate(pts[:budget]):
        root = base / f"r{k}"
        root.mkdir()
        if c.chance(0.3):  # a populated cache whose entries get rewritten
            preprocess(ds, plan, fit_indices=fit, cache_dir=str(root))
        r = crash.run(act(root), root, at=at, mode=mode, limit=lim)
        c.count(f"injected_{mode}_{r['status']}")
        where = f"{modality} {ids} {mode} at event {at} (limit {lim}), outcome {r['status']}"
        judge(c, ds, plan, fit, root, want, where)
        if r["status"] != "done":
            c.nontrivial((ids, at, mode, lim))


GARBAGE = [b"", b"\x93NUMPY", b"PK\x03\x04junk", b"{", b"\xff\xfe\x00garbage\n", b"null", b"[]"]


@M.scenario(quick=60, thorough=1500)
def damaged(c):
    modality = c.pick(MODS)
    s = setup(c, modality)
    if s is None:
        c.count("rejected_requests")
        return
    ds, plan, fit, want = s
    root = c.tmp()
    ids = [x.step_id for x in plan.steps]
    for rnd in range(4):
        preprocess(ds, plan, fit_indices=fit, cache_dir=str(root))
        files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        hit = c.py.sample(files, min(len(files), c.py.randint(1, 4)))
        done = []
        for f in hit:
            how = c.pick(["delete", "truncate", "truncate", "garbage"])
            if how == "delete":
                os.remove(f)
            elif how == "truncate":
                n = os.path.getsize(f)
                cut = c.py.randrange(n) if n else 0
                # a shorter JSON number or a shorter plain text can still be valid: only cut where that cannot be
                if f.endswith(".json") and os.path.basename(f) != "manifest.json":
                    cut = 0
                os.truncate(f, cut)
            else:
                g = c.pick(GARBAGE if not f.endswith(".json") else GARBAGE[:5])
                with open(f, "wb") as fh:
                    fh.write(g)
            done.append(f"{how}:{os.path.relpath(f, root).split('/')[-1]}")
            c.count(f"damage_{how}")
        judge(c, ds, plan, fit, root, want, f"{modality} {ids} after {done}")
        c.nontrivial((ids, sorted(done)))
