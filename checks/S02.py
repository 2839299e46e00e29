"""S02: partition sizes, class proportions, label budgets and imbalance caps are what the plan asks."""
import dataclasses

import numpy as np
from modssc.sampling import sample
from modssc.sampling import plan as P

from vf import samp
from vf.core import Module, short

M = Module(
    "S02",
    rule="Random datasets x plans x seeds, judged against independently computed counts (hold-out sizes, per-class "
    "proportions, fold sizes, label budget and per-class minimum, imbalance caps). Non-trivial: at least two classes "
    "in the training part; distinct by (dataset, plan, seed).",
)


def cc(y, idx):
    y = np.asarray(y)
    cls, cnt = np.unique(y[np.asarray(idx, dtype=np.int64)], return_counts=True)
    return {k: int(v) for k, v in zip(cls.tolist(), cnt.tolist())}


def no_official(pol):
    return dataclasses.replace(pol, use_official_graph_masks=False)


def near_round(got, exact, hi):
    return abs(got - min(max(exact, 0), hi)) <= 0.5 + 1e-9


def check_holdout_step(c, y, pool, held, frac, stratify, tag):
    n = pool.size
    c.check(near_round(held.size, frac * n, n), f"{tag}-size", f"{held.size} held out of {n}, fraction {frac}")
    if stratify and n:
        pc, hc = cc(y, pool), cc(y, held)
        for k, v in pc.items():
            exp = v * held.size / n
            c.check(abs(hc.get(k, 0) - exp) < 1 + 1e-9, f"{tag}-stratify", f"class {k}: {hc.get(k, 0)} of {v} held out, expected about {exp:.2f}")
            c.count("class_proportions_judged")


@M.scenario(quick=2700, thorough=14000)
def split_sizes(c):
    ds, info = samp.dataset(c)
    y = np.asarray(ds.train.y)
    pl = samp.plan(c, info["n"], imbalance=P.ImbalanceSpec())
    pl = dataclasses.replace(pl, policy=no_official(pl.policy))
    seed = c.py.randrange(10**6)
    c.note = {"info": info, "plan": pl.as_dict(), "seed": seed}
    res, _ = sample(ds, plan=pl, seed=seed)
    p = {k: np.sort(v) for k, v in samp.parts_of(res).items()}
    n = info["n"]
    own_test = (not info["graph"]) and res.refs["test"] == "test"
    sp = pl.split
    allidx = np.arange(n)
    if isinstance(sp, P.HoldoutSplitSpec):
        if own_test:
            pool = allidx
        else:
            check_holdout_step(c, y, allidx, p["test"], sp.test_fraction, sp.stratify, "test")
            pool = np.setdiff1d(allidx, p["test"])
        check_holdout_step(c, y, pool, p["val"], sp.val_fraction, sp.stratify, "val")
    else:
        held = p["val"] if own_test else p["test"]
        if sp.stratify:
            hc = cc(y, held)
            for k, v in cc(y, allidx).items():
                c.check(v // sp.k <= hc.get(k, 0) <= -(-v // sp.k), "fold-stratify", f"class {k}: {hc.get(k, 0)} of {v} in one of {sp.k} folds")
        else:
            c.check(n // sp.k <= held.size <= -(-n // sp.k), "fold-size", f"{held.size} of {n} in one of {sp.k} folds")
        if not own_test:
            pool = np.setdiff1d(allidx, p["test"])
            check_holdout_step(c, y, pool, p["val"], sp.val_fraction, sp.stratify, "val")
    if len(cc(y, p["train"])) >= 2:
        c.nontrivial([info, pl.as_dict(), seed])
    c.sample({"info": info, "split": sp.as_dict(), "sizes": {k: int(v.size) for k, v in p.items()}})


def judge_labels(c, y, train, labeled, lab):
    n = int(train.size)
    tc, lc = cc(y, train), cc(y, labeled)
    kcls = len(tc)
    if n == 0:
        c.check(labeled.size == 0, "label-budget", "labels from an empty training part")
        return
    mpc = lab.min_per_class
    lb = sum(mpc for v in tc.values() if v >= mpc)
    if lab.mode == "fraction":
        targets = {t for t in (int(np.floor(lab.value * n + 0.5)), int(round(lab.value * n)))}
    elif lab.mode == "count":
        targets = {int(lab.value)}
    else:
        targets = {int(lab.value) * kcls}
    targets = {max(0, min(n, t)) for t in targets}
    c.check(labeled.size in {max(t, lb) for t in targets}, "label-budget",
            f"{labeled.size} labeled, asked {targets} (minimum per class forces {lb}) of {n}, {lab.as_dict()}")
    c.count("label_budgets_judged")
    for k, v in tc.items():
        if v >= mpc:
            c.check(lc.get(k, 0) >= mpc, "min-per-class", f"class {k} has {lc.get(k, 0)} labeled, minimum {mpc}, available {v}")
    t = labeled.size
    if lab.mode == "per_class":
        v = max(int(lab.value), mpc)
        if all(x >= v for x in tc.values()):
            for k in tc:
                c.check(lc.get(k, 0) == v, "per-class-count", f"class {k} has {lc.get(k, 0)} labeled, asked {v}")
            c.count("per_class_exact_judged")
    elif lab.strategy == "balanced":
        b = t // kcls
        if b >= mpc and all(x >= b + 1 for x in tc.values()) and t > 0:
            vals = [lc.get(k, 0) for k in tc]
            c.check(max(vals) - min(vals) <= 1, "balanced", f"balanced labeling gives {lc}")
            c.count("balanced_judged")
    else:
        exp = {k: v * t / n for k, v in tc.items()}
        if t in targets and all(int(np.floor(e)) >= mpc for e in exp.values()):
            for k, e in exp.items():
                c.check(abs(lc.get(k, 0) - e) < 1 + 1e-9, "proportional", f"class {k}: {lc.get(k, 0)} labeled, expected about {e:.2f}")
            c.count("proportional_judged")


@M.scenario(quick=3900, thorough=20000)
def label_budget(c):
    ds, info = samp.dataset(c)
    y = np.asarray(ds.train.y)
    imb = samp.imbalance_spec(c, none=0.7)
    if imb.apply_to != "train":
        imb = P.ImbalanceSpec()
    pl = samp.plan(c, info["n"], imbalance=imb)
    if c.chance(0.5):
        pl = dataclasses.replace(pl, split=P.HoldoutSplitSpec(test_fraction=0.1, val_fraction=0.1, stratify=c.chance(0.5)))
    seed = c.py.randrange(10**6)
    c.note = {"info": info, "plan": pl.as_dict(), "seed": seed}
    res, _ = sample(ds, plan=pl, seed=seed)
    p = samp.parts_of(res)
    judge_labels(c, y, p["train"], p["labeled"], pl.labeling)
    if len(cc(y, p["train"])) >= 2:
        c.nontrivial([info, pl.as_dict(), seed])
    c.sample({"info": info, "labeling": pl.labeling.as_dict(), "train": cc(y, p["train"]), "labeled": cc(y, p["labeled"])})


def judge_imbalance(c, y, before, after, imb, tag):
    c.check(np.setdiff1d(after, before).size == 0, f"{tag}-subset", "imbalance added samples")
    b, a = cc(y, before), cc(y, after)
    if imb.kind == "subsample_max_per_class":
        for k, v in b.items():
            c.check(a.get(k, 0) == min(v, imb.max_per_class), f"{tag}-cap", f"class {k}: {v} -> {a.get(k, 0)}, cap {imb.max_per_class}")
    else:
        srt = sorted(b.values(), reverse=True)
        mx = srt[0] if srt else 0
        pairs = sorted((v, a.get(k, 0)) for k, v in b.items())
        for alt in (lambda x: int(round(x)), lambda x: int(np.floor(x + 0.5))):
            want = sorted((v, min(v, max(alt(mx * imb.alpha**r), imb.min_per_class))) for r, v in enumerate(srt))
            if want == pairs:
                break
        else:
            c.fail(f"{tag}-long-tail", f"long tail alpha={imb.alpha} turned {b} into {a}")
        c.count("oracle_checks")
    c.count("imbalances_judged")


@M.scenario(quick=2100, thorough=10000)
def imbalance(c):
    ds, info = samp.dataset(c, min_n=10)
    y = np.asarray(ds.train.y)
    imb = samp.imbalance_spec(c, none=0.0)
    pl = samp.plan(c, info["n"], imbalance=imb)
    if c.chance(0.6):
        pl = dataclasses.replace(pl, split=P.HoldoutSplitSpec(test_fraction=0.1, val_fraction=0.1, stratify=c.chance(0.5)))
    pl0 = dataclasses.replace(pl, imbalance=P.ImbalanceSpec())
    seed = c.py.randrange(10**6)
    c.note = {"info": info, "plan": pl.as_dict(), "seed": seed}
    p = samp.parts_of(sample(ds, plan=pl, seed=seed)[0])
    q = samp.parts_of(sample(ds, plan=pl0, seed=seed)[0])
    for k in ("val", "test"):
        c.check(np.array_equal(np.sort(p[k]), np.sort(q[k])), "imbalance-eval-part", f"imbalance changed the {k} part")
    if imb.apply_to == "train":
        judge_imbalance(c, y, q["train"], p["train"], imb, "train")
        judge_labels(c, y, p["train"], p["labeled"], pl.labeling)
    else:
        c.check(np.array_equal(np.sort(p["train"]), np.sort(q["train"])), "imbalance-train-part", "label imbalance changed the training part")
        judge_imbalance(c, y, q["labeled"], p["labeled"], imb, "labeled")
        removed = np.setdiff1d(q["labeled"], p["labeled"])
        c.check(np.setdiff1d(removed, p["unlabeled"]).size == 0, "imbalance-unlabeled", "removed labels vanished")
    if len(cc(y, q["train"])) >= 2:
        c.nontrivial([info, pl.as_dict(), seed])
    c.sample({"info": info, "imbalance": imb.as_dict(), "train": [cc(y, q["train"]), cc(y, p["train"])]})
