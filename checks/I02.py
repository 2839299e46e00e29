"""I02: a fit of any inductive method is settled by its data, options and seed alone."""

import numpy as np

from vf import indm
from vf.core import Module
from vf.xproc import fresh_process

M = Module(
    "I02",
    rule="The same described fit is repeated with the process's generators disturbed, on a method object that has already fitted other data, next to other fits, and in another process; "
    "the answers are compared. Non-trivial: distinct (method, base or network, settings) whose answers differ between seeds or between data sets.",
    preload=["torch", "sklearn", "modssc.inductive.registry", "modssc.inductive.deep"],
)


def differs(a, b, tol):
    if a.get("refused") != b.get("refused"):
        return f"one refused: {a.get('refused')} / {b.get('refused')}"
    pa, pb = np.asarray(a["p"], float), np.asarray(b["p"], float)
    if pa.shape != pb.shape:
        return f"shapes {pa.shape} {pb.shape}"
    gap = float(np.max(np.abs(pa - pb), initial=0.0))
    if gap > tol:
        return f"probabilities differ by {gap:.3g}"
    if tol == 0 and a["y"] != b["y"]:
        return "labels differ"
    return None


def twin(c, d, what, mech, **kw):
    first = indm.run_or_refuse(d, stir_with=c.py.randrange(10**6))
    second = indm.run_or_refuse(d, stir_with=c.py.randrange(10**6), **kw)
    why = differs(first, second, 0.0)
    c.check(why is None, mech, lambda: f"{d['mid']} {d.get('base', d.get('net'))} {d['spec']} seed {d['seed']}: {why} ({what})")
    c.count("twin_fits")
    return first


def key(d):
    return (d["mid"], str(d.get("base", d.get("net"))), str(sorted(d["spec"].items())), d["nl"], d["nu"])


for _mid in indm.CLASSIC + indm.DEEP:

    def _make(mid=_mid):
        def run(c):
            d = indm.describe(c, mid)
            r = twin(c, d, "the process's random state was disturbed", "depends-on-process-random-state")
            how = c.pick(["history", "between"])
            if how == "history":
                twin(c, d, "after the method object had fitted other data", "depends-on-earlier-fit", history=c.py.randint(1, 2))
            else:
                twin(c, d, "while another method object was fitted before predicting", "depends-on-other-object", between=True)
            if len({tuple(x) for x in r["p"]}) > 1:
                c.nontrivial(key(d))
            c.sample(dict(method=mid, options=d["spec"]))

        run.__name__ = mid
        return run

    M.scenario(quick=8 if _mid in indm.CLASSIC else 10, thorough=1200)(_make())


@M.scenario(quick=8, thorough=150)
def another_process(c):
    d = indm.describe(c, (indm.CLASSIC + indm.DEEP)[(c.index * 5 + c.seed) % 28])
    here = indm.run_or_refuse(d, stir_with=1)
    there = fresh_process("vf.indm", "remote", {"d": d, "stir": 2})
    why = differs(here, there, 1e-9)
    c.check(why is None, "depends-on-process", lambda: f"{d['mid']} {d['spec']}: {why} in a fresh process")
    c.nontrivial(key(d))
    c.count("fresh_processes")


# methods whose result must react to the seed: many small shuffled batches, bootstraps or random draws
SEEDED = [*indm.DEEP, "tri_training"]


@M.scenario(quick=len(SEEDED), thorough=len(SEEDED) * 8)
def seed_is_used(c):
    mid = SEEDED[c.index % len(SEEDED)]
    d = indm.describe(c, mid)
    if mid in indm.DEEP:
        d.update(nl=9, nu=13, sep=0.5, net="plain", graph=False, opt="sgd")
        d["spec"] = d["spec"] | dict(batch_size=2)
    else:
        d.update(labels=[0, 1], back="numpy", base=["knn", "numpy", {"k": 1}], nl=12, nu=20, sep=0.2)
        d["spec"] = dict(max_iter=3)
    seen = {str(indm.run_or_refuse(d, seed=s)["p"]) for s in range(6)}
    c.check(len(seen) > 1, "seed-ignored", lambda: f"{mid} {d['spec']}: six seeds gave one answer")
    c.nontrivial(("seed", mid))
    c.count("distinct_answers_over_six_seeds", len(seen))
