"""S03: a split is a deterministic function of (dataset, plan, seed), and its fingerprint identifies it."""
import dataclasses
import random

import numpy as np
from modssc.sampling import sample
from modssc.sampling import plan as P

from vf import gen, samp
from vf.core import Case, Module, Stats
from vf.xproc import fresh_process

M = Module(
    "S03",
    rule="Each case re-runs sampling of one (dataset, plan, seed) after perturbing every global random generator, after "
    "other sampling calls, through a dict round trip of the plan, and in fresh interpreters with random hash seeds; and "
    "compares fingerprints under single-field changes. Non-trivial: plan with a non-empty random part; distinct by (dataset, plan, seed).",
)


def parts(res):
    return {k: np.sort(v).tolist() for k, v in samp.parts_of(res).items()}


def mutate_plan(c, pl):
    """A plan differing in exactly one declared field, and the name of the field."""
    sec = c.pick(["split", "labeling", "imbalance", "policy"])
    obj = getattr(pl, sec)
    if sec == "split":
        if isinstance(obj, P.HoldoutSplitSpec):
            f = c.pick(["test_fraction", "val_fraction", "stratify", "shuffle"])
        else:
            f = c.pick(["k", "fold", "stratify", "shuffle", "val_fraction"])
    elif sec == "labeling":
        f = c.pick(["mode", "value", "per_class", "min_per_class", "strategy", "fixed_indices"])
    elif sec == "imbalance":
        f = c.pick(["kind", "apply_to", "max_per_class", "alpha", "min_per_class"])
    else:
        f = c.pick(["respect_official_test", "use_official_graph_masks", "allow_override_official"])
    v = getattr(obj, f)
    if isinstance(v, bool):
        nv = not v
    elif f in ("test_fraction", "val_fraction"):
        nv = v + 0.0625
    elif f == "mode":
        nv = {"fraction": "count", "count": "per_class", "per_class": "count"}[v]
    elif f == "strategy":
        nv = "balanced" if v == "proportional" else "proportional"
    elif f == "kind":
        nv = "long_tail" if v != "long_tail" else "subsample_max_per_class"
    elif f == "apply_to":
        nv = "labeled" if v == "train" else "train"
    elif f == "alpha":
        nv = 0.123 if v != 0.123 else 0.321
    elif f == "max_per_class":
        nv = 7 if v != 7 else 8
    elif f == "fixed_indices":
        nv = [0, 1] if v is None else None
    elif f == "value":
        nv = (v / 2) if obj.mode == "fraction" else v + 1
    else:
        nv = v + 1
    return dataclasses.replace(pl, **{sec: dataclasses.replace(obj, **{f: nv})}), f"{sec}.{f}"


def fp(ds, pl, seed):
    try:
        return sample(ds, plan=pl, seed=seed)[0].split_fingerprint
    except (ValueError, RuntimeError):
        return None  # this plan is invalid for the data: nothing to fingerprint


def build(prop_seed):
    c = Case("S03", "xproc", prop_seed[1], prop_seed[0], "quick", Stats())
    ds, info = samp.dataset(c, label_kinds=("int", "gap", "str", "obj", "neg"))
    pl = samp.plan(c, info["n"])
    return ds, info, pl, c.py.randrange(10**6)


def xproc_run(payload):
    out = []
    for ps in payload:
        ds, info, pl, seed = build(ps)
        r = sample(ds, plan=pl, seed=seed)[0]
        out.append([r.split_fingerprint, parts(r)])
    return out


@M.scenario(quick=2100, thorough=10000)
def repeatable(c):
    ds, info = samp.dataset(c)
    pl = samp.plan(c, info["n"])
    seed = c.py.randrange(10**6)
    c.note = {"info": info, "plan": pl.as_dict(), "seed": seed}
    before_in = gen.digest([ds.train, ds.test, dict(ds.meta)])
    gen.perturb_global_rng(c)
    st = gen.rng_state_digest()
    a = sample(ds, plan=pl, seed=seed)[0]
    c.check(gen.rng_state_digest() == st, "global-rng", "sampling changed a global random generator")
    gen.perturb_global_rng(c)
    np.random.random(c.py.randint(0, 5))
    for _ in range(c.py.randint(0, 2)):  # unrelated history
        sample(ds, plan=pl, seed=seed + 1 + c.py.randrange(9))
    pl2 = P.SamplingPlan.from_dict(pl.as_dict())
    b = sample(ds, plan=pl2, seed=seed)[0]
    c.check(parts(a) == parts(b), "not-repeatable", "two runs of one (dataset, plan, seed) differ")
    c.check(a.split_fingerprint == b.split_fingerprint, "fingerprint-unstable", "")
    c.check(gen.digest([ds.train, ds.test, dict(ds.meta)]) == before_in, "input-mutated", "sampling changed its input dataset")
    c.check(pl2 == P.SamplingPlan.from_dict(pl2.as_dict()), "plan-roundtrip", "plan does not survive its dict form")
    if len(a.train_idx):
        c.nontrivial([info, pl.as_dict(), seed])
    c.sample({"info": info, "plan": pl.as_dict(), "seed": seed, "fp": a.split_fingerprint})


@M.scenario(quick=2100, thorough=10000)
def fingerprint_separates(c):
    ds, info = samp.dataset(c)
    pl = samp.plan(c, info["n"])
    seed = c.py.randrange(10**6)
    base = fp(ds, pl, seed)
    pl2, field = mutate_plan(c, pl)
    c.note = {"info": info, "plan": pl.as_dict(), "field": field}
    if pl2.as_dict() != pl.as_dict():
        o = fp(ds, pl2, seed)
        if o is not None:
            c.check(o != base, "fingerprint-ignores-plan", f"changing {field} keeps the split fingerprint")
            c.count("plan_field_changes_judged")
    c.check(fp(ds, pl, seed + c.pick([1, 2**32, 2**33, 17])) != base, "fingerprint-ignores-seed", "")
    ds2 = dataclasses.replace(ds, meta={"dataset_fingerprint": ds.meta["dataset_fingerprint"] + "x"})
    c.check(fp(ds2, pl, seed) != base, "fingerprint-ignores-dataset", "")
    r = sample(ds, plan=pl, seed=seed, dataset_fingerprint="explicit")[0]
    c.check(r.dataset_fingerprint == "explicit" and r.split_fingerprint != base, "fingerprint-ignores-dataset", "explicit dataset fingerprint")
    c.nontrivial([info, field, seed])


@M.scenario(quick=450, thorough=2000)
def seed_matters(c):
    """Different seeds give different random splits and different label choices."""
    n = c.py.randint(60, 150)
    ds, info = samp.dataset(c, graph=False, test=False, n=n, label_kinds=("int",))
    st = c.chance(0.5)
    sp = c.pick([P.HoldoutSplitSpec(test_fraction=0.3, val_fraction=0.3, stratify=st), P.KFoldSplitSpec(k=3, fold=c.py.randrange(3), stratify=st, shuffle=True)])
    pl = P.SamplingPlan(split=sp, labeling=P.LabelingSpec(mode="fraction", value=0.4))
    s0 = c.py.randrange(10**6)
    # unrelated seeds, neighbours, and seeds that agree in their low or high bits
    seeds = sorted({s0, s0 + 1, s0 + 2 ** c.py.randint(1, 48), s0 + 2 ** c.py.randint(8, 34), 10 * s0 + 10, c.py.randrange(10**6), 0, c.py.randint(1, 9)})
    rs = [parts(sample(ds, plan=pl, seed=s)[0]) for s in seeds]
    for k in ("test", "train", "labeled"):
        c.check(len({tuple(r[k]) for r in rs}) == len(rs), "seed-ignored", f"{len(rs)} seeds share a {k} part of {n} samples")
    c.nontrivial([info, seeds])


@M.scenario(quick=270, thorough=1200)
def every_sample_can_be_drawn(c):
    """Over many seeds, samples of one class are drawn equally often: no part is chosen by position."""
    n, R = c.pick([8, 20, 40]), 160
    ds, info = samp.dataset(c, graph=c.chance(0.3), test=False, n=n, label_kinds=("int",))
    y = np.asarray(ds.train.y)
    st = c.chance(0.6)
    if c.chance(0.5):
        k = c.py.randint(2, 14)
        sp = P.KFoldSplitSpec(k=k, fold=c.py.randrange(k), stratify=st, shuffle=True, val_fraction=c.pick([0.0, 0.3]))
    else:
        sp = P.HoldoutSplitSpec(test_fraction=c.pick([0.1, 0.3, 0.5]), val_fraction=c.pick([0.0, 0.3]), stratify=st)
    imb = samp.imbalance_spec(c, none=0.5)
    pl = P.SamplingPlan(split=sp, labeling=samp.labeling_spec(c, n), imbalance=imb, policy=P.SamplingPolicy(use_official_graph_masks=False))
    c.note = {"info": info, "plan": pl.as_dict()}
    s0, counts = c.py.randrange(10**6), {}
    for s in range(R):
        r = sample(ds, plan=pl, seed=s0 + s)[0]
        for k, v in samp.parts_of(r).items():
            counts.setdefault(k, np.zeros(n))[np.asarray(v)] += 1
    for k, v in counts.items():
        for cls in np.unique(y):
            x = v[y == cls]
            p = x.mean() / R
            slack = 6 * np.sqrt(R * p * (1 - p)) + 3
            c.check(np.abs(x - R * p).max() <= slack, "drawn-by-position", lambda k=k, x=x: f"over {R} seeds the {k} part took the samples of one class {x.astype(int).tolist()} times")
    c.count("splits_drawn", R)
    c.nontrivial([info, pl.as_dict()])


@M.scenario(quick=900, thorough=4000)
def labeling_independent_of_split(c):
    """Changing only how labels are chosen leaves train, val and test as they were."""
    ds, info = samp.dataset(c)
    imb = c.pick([P.ImbalanceSpec(), samp.imbalance_spec(c)])
    pl = samp.plan(c, info["n"], imbalance=imb)
    pl2 = dataclasses.replace(pl, labeling=samp.labeling_spec(c, info["n"]))
    seed = c.py.randrange(10**6)
    c.note = {"info": info, "plan": pl.as_dict(), "seed": seed}
    a, b = parts(sample(ds, plan=pl, seed=seed)[0]), parts(sample(ds, plan=pl2, seed=seed)[0])
    for k in ("train", "val", "test"):
        c.check(a[k] == b[k], "labeling-moves-split", f"{k} part changed with the labeling")
    c.nontrivial([info, seed])


@M.scenario(quick=24, thorough=40)
def fresh_interpreter(c):
    payload = [[c.seed, c.index * 100 + i] for i in range(40)]
    here = xproc_run(payload)
    there = fresh_process("checks.S03", "xproc_run", payload)
    for i, (a, b) in enumerate(zip(here, there)):
        c.check(a[0] == b[0], "fingerprint-process", f"fingerprint differs between interpreters, case {payload[i]}")
        c.check(a[1] == b[1], "split-process", f"split differs between interpreters, case {payload[i]}")
    c.count("cross_process_splits", len(payload))
    c.nontrivial(payload)
