"""S01: every split is a leak-free partition; official partitions are honoured."""
import dataclasses

import numpy as np
from modssc.sampling import sample
from modssc.sampling import plan as P

from vf import samp
from vf.core import Module, short

M = Module(
    "S01",
    rule="Random datasets (1-220 samples or nodes; int, gapped, negative, string, object, float and very large labels; "
    "with or without official test split or official graph masks) x random plans x seeds. Non-trivial: the split "
    "has at least two non-empty parts; distinct by (dataset digest, plan, seed).",
)


def monitor_partition(c, res, ds, info, plan):
    p = samp.parts_of(res)
    n = info["n"]
    for k, v in p.items():
        c.check(v.dtype.kind in "iu" or v.size == 0, "index-dtype", f"{k} has dtype {v.dtype}")
        c.check(np.unique(v).size == v.size, "duplicates", f"{k} repeats indices {short(v)}")
        p[k] = np.sort(v)
    test_own = False
    if not info["graph"]:
        test_ref = res.refs["test"]
        test_own = test_ref == "test"
        for k in ("train", "val", "train_labeled", "train_unlabeled"):
            c.check(res.refs[k] == "train", "refs", f"{k} refers to {res.refs[k]}")
    for k, v in p.items():
        hi = info["n_test"] if (k == "test" and test_own) else n
        if v.size:
            c.check(v.min() >= 0 and v.max() < hi, "out-of-range", f"{k}: [{v.min()},{v.max()}] outside 0..{hi}")
    pairs = [("train", "val")] + ([] if test_own else [("train", "test"), ("val", "test")])
    for a, b in pairs:
        x = np.intersect1d(p[a], p[b])
        c.check(x.size == 0, "leak", f"{a} and {b} share {short(x)}")
    c.check(np.intersect1d(p["labeled"], p["unlabeled"]).size == 0, "labeled-unlabeled-overlap", "")
    c.check(np.array_equal(np.sort(np.r_[p["labeled"], p["unlabeled"]]), p["train"]), "labeled-cover",
            f"labeled+unlabeled != train: {p['labeled'].size}+{p['unlabeled'].size} vs {p['train'].size}")
    # coverage
    shrunk = plan.imbalance.kind != "none" and plan.imbalance.apply_to == "train"
    masks = ds.train.masks
    official_masks = info["graph"] and plan.policy.use_official_graph_masks and info.get("masks") == "full"
    if official_masks:
        for k in ("train", "val", "test"):
            want = np.where(np.asarray(masks[k]).astype(bool))[0]
            if k == "train" and shrunk:
                c.check(np.setdiff1d(p[k], want).size == 0, "official-mask", "train leaves official train mask")
            else:
                c.check(np.array_equal(p[k], want), "official-mask", f"{k} differs from official mask")
        c.count("official_masks_seen")
    else:
        own = np.r_[p["train"], p["val"]] if test_own else np.r_[p["train"], p["val"], p["test"]]
        if shrunk:
            c.check(np.setdiff1d(own, np.arange(n)).size == 0, "cover", "")
        else:
            c.check(np.array_equal(np.sort(own), np.arange(n)), "cover", f"parts cover {own.size} of {n} samples")
    if not info["graph"]:
        use_official = info["n_test"] is not None and plan.policy.respect_official_test and not plan.policy.allow_override_official
        c.check(test_own == use_official, "official-test", f"test refers to {res.refs['test']}, official={use_official}")
        if use_official:
            c.check(np.array_equal(p["test"], np.arange(info["n_test"])), "official-test", f"official test not whole: {short(p['test'])}")
            c.count("official_test_seen")
    return p


@M.scenario(quick=3200, thorough=24000)
def partition(c):
    ds, info = samp.dataset(c)
    plan = samp.plan(c, info["n"])
    seed = c.py.randrange(-5, 10**6)
    c.note = {"info": info, "plan": plan.as_dict(), "seed": seed}
    res, _ = sample(ds, plan=plan, seed=seed)
    p = monitor_partition(c, res, ds, info, plan)
    c.count("splits_observed")
    sizes = {k: int(v.size) for k, v in p.items()}
    if sum(1 for k in ("train", "val", "test") if sizes[k]) >= 2:
        c.nontrivial([info, plan.as_dict(), seed])
    c.sample({"info": info, "plan": plan.as_dict(), "seed": seed, "sizes": sizes})


@M.scenario(quick=500, thorough=4000)
def folds_partition(c):
    """The k folds of one plan partition the data: every sample is held out exactly once."""
    ds, info = samp.dataset(c, min_n=8)
    if info["graph"]:
        pol = P.SamplingPolicy(use_official_graph_masks=False)
    else:
        pol = samp.policy(c)
    k = c.py.randint(2, min(7, max(2, info["n"])))
    base = P.KFoldSplitSpec(k=k, fold=0, stratify=c.chance(0.5), shuffle=c.chance(0.6), val_fraction=c.pick([0.0, 0.2]))
    lab = samp.labeling_spec(c, info["n"])
    seed = c.py.randrange(10**6)
    held = []
    for f in range(k):
        plan = P.SamplingPlan(split=dataclasses.replace(base, fold=f), labeling=lab, policy=pol)
        c.note = {"info": info, "plan": plan.as_dict(), "seed": seed}
        res, _ = sample(ds, plan=plan, seed=seed)
        p = monitor_partition(c, res, ds, info, plan)
        own_test = (not info["graph"]) and res.refs["test"] == "test"
        held.append(p["val"] if own_test else p["test"])
        c.count("folds_observed")
    allh = np.concatenate(held)
    c.check(np.array_equal(np.sort(allh), np.arange(info["n"])), "folds-partition",
            f"{k} folds hold out {allh.size} (unique {np.unique(allh).size}) of {info['n']}")
    c.nontrivial([info, base.as_dict(), seed])


@M.scenario(quick=240, thorough=1500)
def fixed_labels(c):
    """User-given labeled indices are used exactly, or refused."""
    ds, info = samp.dataset(c, min_n=10)
    pl = samp.plan(c, info["n"], imbalance=P.ImbalanceSpec())
    seed = c.py.randrange(10**6)
    res, _ = sample(ds, plan=pl, seed=seed)
    tr = np.asarray(res.train_idx)
    if tr.size < 2:
        return
    k = c.py.randint(1, tr.size)
    chosen = [int(i) for i in c.rng.choice(tr, size=k, replace=False)]
    bad = c.pick(["none", "none", "outside", "dup"])
    if bad == "outside":
        out = np.setdiff1d(np.arange(info["n"]), tr)
        if out.size == 0:
            return
        chosen = chosen + [int(c.pick(list(out)))]
    elif bad == "dup":
        chosen = chosen + [chosen[0]]
    pl2 = dataclasses.replace(pl, labeling=dataclasses.replace(pl.labeling, fixed_indices=chosen))
    c.note = {"info": info, "plan": pl2.as_dict(), "seed": seed, "bad": bad}
    if bad == "none":
        res2, _ = sample(ds, plan=pl2, seed=seed)
        p = monitor_partition(c, res2, ds, info, pl2)
        c.check(np.array_equal(p["labeled"], np.sort(chosen)), "fixed-labels", "labeled set differs from the given indices")
    else:
        c.raises((ValueError, RuntimeError, Exception), lambda: sample(ds, plan=pl2, seed=seed), "fixed-labels-accepted", bad)
        c.count("refusals_observed")
    c.nontrivial([info, seed, bad, k])
