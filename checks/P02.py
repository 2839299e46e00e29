"""P02: a preprocessing result depends only on the request, and preprocessing leaves its inputs alone."""
import numpy as np
from modssc.preprocess import preprocess
from modssc.preprocess.plan import PreprocessPlan, StepConfig, dump_plan, load_plan

from vf import gen, ppgen, xproc
from vf.core import Module

M = Module(
    "P02",
    rule="One preprocess request is run again with perturbed global random state, after other requests, with and without purging of unused artifacts, "
    "from a plan written to and read from YAML, and in a fresh process; results, and digests of the input dataset before and after, are compared. "
    "Non-trivial: distinct (modality, plan, varied factor) accepted by the library.",
    preload=["torch", "sklearn.preprocessing", "sklearn.impute", "sklearn.feature_extraction.text", "modssc.preprocess"],
)


def ds_digest(ds):
    def sp(s):
        return None if s is None else [s.X, s.y, s.edges, s.masks]

    return gen.digest([sp(ds.train), sp(ds.test), ds.meta])


@M.scenario(quick=240, thorough=6000)
def same_request(c):
    modality = ppgen.MODALITIES[c.index % len(ppgen.MODALITIES)]
    ds, _, _ = ppgen.dataset(c, modality)
    p = ppgen.accepted(c, ds, lambda: ppgen.plan(c, modality, 1, 6))
    n = len(ds.train.y)
    fit = np.sort(c.rng.choice(n, size=max(2, n * 2 // 3), replace=False))
    seed = c.py.randrange(1000)
    before = ds_digest(ds)
    fit_before = fit.copy()

    def run(plan=p, fit_indices=fit, **kw):
        gen.perturb_global_rng(c)
        state = gen.rng_state_digest()
        out = ppgen.attempt(lambda: preprocess(ds, plan, seed=seed, fit_indices=fit_indices, cache=False, **kw))
        c.check(gen.rng_state_digest() == state, "global-random-state-changed", lambda: f"{modality} {[(s.step_id, dict(s.params)) for s in plan.steps]}")
        return out

    a = run()
    ids = [s.step_id for s in p.steps]
    desc = f"{modality} {[(s.step_id, dict(s.params)) for s in p.steps]} out={p.output_key} seed={seed}"
    c.check(ds_digest(ds) == before and np.array_equal(fit, fit_before), "input-mutated", f"{desc}: the input dataset or fit indices changed")
    if a[0] == "err":
        c.count("rejected_requests")
        return
    ppgen.attempt(lambda: preprocess(ds, ppgen.mutate(c, p, modality), seed=seed + 1, fit_indices=fit, cache=False))
    b = run()
    c.check(b[0] == "ok", "not-reproducible", f"{desc}: second run raised {b[1]}")
    d = ppgen.diff(ppgen.artifacts(b[1]), ppgen.artifacts(a[1])) or ppgen.diff(ppgen.view(b[1]), ppgen.view(a[1]))
    c.check(d is None, "not-reproducible", f"{desc}: {d}")
    c.check(a[1].preprocess_fingerprint == b[1].preprocess_fingerprint, "fingerprint-not-stable", desc)
    c.nontrivial((modality, ids, "rerun"))

    q = run(purge_unused_artifacts=True)
    c.check(q[0] == "ok", "purge-changes-outcome", f"{desc}: with purge_unused_artifacts {q[1] if q[0] == 'err' else ''}")
    d = ppgen.diff(ppgen.view(q[1]), ppgen.view(a[1]))
    c.check(d is None, "purge-changes-result", f"{desc}: {d}")
    c.nontrivial((modality, ids, "purge"))

    # a disabled step, or one for another modality, is as if it were not there... except for its index
    path = c.tmp() / "plan.yaml"
    dump_plan(p, path)
    p2 = load_plan(path)
    c.check(p2.fingerprint() == p.fingerprint(), "plan-yaml-roundtrip", f"{desc}: fingerprint differs after dump/load")
    y = run(plan=p2)
    d = "raised" if y[0] == "err" else ppgen.diff(ppgen.view(y[1]), ppgen.view(a[1]))
    c.check(d is None, "plan-yaml-roundtrip", f"{desc}: {d}")
    extra = StepConfig("core.cast_fp16", enabled=False)
    other = StepConfig("core.cast_fp16", modalities=("none-such",))
    req = StepConfig("core.cast_fp16", requires_fields=("no.such.field",))
    st = (*p.steps, c.pick([extra, other, req]))
    e = run(plan=PreprocessPlan(steps=st, output_key=p.output_key))
    d = "raised" if e[0] == "err" else ppgen.diff(ppgen.view(e[1]), ppgen.view(a[1]))
    c.check(d is None, "skipped-step-has-effect", f"{desc}: {d}")
    c.check(len(e[1].plan.skipped) == len(a[1].plan.skipped) + 1, "skipped-step-not-reported", desc)
    c.check(ds_digest(ds) == before, "input-mutated", f"{desc}: the input dataset changed")
    if c.index < 2:
        c.sample({"plan": ids, "modality": modality})


def rebuild(payload):
    """Run the requests of a batch of case seeds; used in this process and in fresh ones."""
    from vf.core import Case, Stats

    out = []
    for i in payload["indices"]:
        c = Case("P02", "process", i, payload["seed"], "quick", Stats())
        modality = ppgen.MODALITIES[i % len(ppgen.MODALITIES)]
        ds, _, _ = ppgen.dataset(c, modality)
        p = ppgen.accepted(c, ds, lambda: ppgen.plan(c, modality, 1, 5))
        r = ppgen.attempt(lambda: preprocess(ds, p, seed=i, fit_indices=np.arange(len(ds.train.y)), cache=False))
        out.append([r[0], r[1] if r[0] == "err" else gen.digest([ppgen.view(r[1]), r[1].preprocess_fingerprint, r[1].plan.fingerprint])])
    return out


@M.scenario(quick=4, thorough=40)
def process(c):
    pay = {"indices": list(range(c.index * 12, c.index * 12 + 12)), "seed": c.seed}
    here = rebuild(pay)
    there = xproc.fresh_process("checks.P02", "rebuild", pay)
    for i, a, b in zip(pay["indices"], here, there):
        c.check(a == b, "differs-between-processes", f"request {i}: {a} != {b}")
        c.nontrivial(("process", i))
