"""E01: a metric is the stated function of the true and predicted labels, whatever the label coding, order, container or shape."""
import numpy as np

from vf.core import Module, short

M = Module(
    "E01",
    rule="Generated label vectors (classes missing on either side, negative and gappy codes, strings, one class, single rows, score matrices with ties) are scored; "
    "values are compared with counting definitions and scikit-learn, under row permutation, one-to-one recoding, splitting into parts, other containers "
    "and through the command line. Non-trivial: distinct (metric set, coding, missing-class pattern) with a value strictly between 0 and 1.",
    preload=["modssc.evaluation", "sklearn.metrics", "torch"],
)
NAMES = ["accuracy", "balanced_accuracy", "macro_f1"]


def own(name, yt, yp):
    yt, yp = list(yt), list(yp)
    if not yt:
        return float("nan")
    if name == "accuracy":
        return sum(a == b for a, b in zip(yt, yp)) / len(yt)
    out = []
    for k in sorted(set(yt)):
        tp = sum(a == k and b == k for a, b in zip(yt, yp))
        out.append(tp / yt.count(k) if name == "balanced_accuracy" else 2 * tp / (yt.count(k) + yp.count(k)))
    return sum(out) / len(out)


def close(a, b):
    return (a != a and b != b) or abs(a - b) < 1e-12


def labels(c, n):
    k = c.py.randint(1, 6) if not c.chance(0.15) else c.py.randint(15, 45)
    code = c.pick(["plain", "gap", "neg", "str", "big", "u8", "bool", "obj"])
    pool = {"plain": np.arange(k), "gap": np.sort(c.rng.choice(50, k, replace=False)), "neg": np.arange(k) - 3, "str": np.array([f"c{9 * i}" for i in range(k)]),
            "big": np.arange(k) + 2**40, "u8": np.arange(k, dtype=np.uint8), "bool": np.array([False, True])[:max(1, min(k, 2))],
            "obj": np.array([f"lab{i}" for i in range(k)], dtype=object)}[code]
    k = len(pool)
    used_t = c.rng.choice(k, c.py.randint(1, k), replace=False)
    used_p = c.rng.choice(k, c.py.randint(1, k), replace=False)
    t, p = c.rng.choice(used_t, n), c.rng.choice(used_p, n)
    agree = c.rng.random(n) < c.pick([0.0, 0.3, 0.8, 1.0])
    p[agree] = t[agree]
    return code, pool, t, p


@M.scenario(quick=5000, thorough=60000)
def value(c):
    from modssc.evaluation import compute_metrics

    n = c.pick([0, 1, 2, 5, 20, 60, 150])
    code, pool, t, p = labels(c, n)
    yt, yp = pool[t], pool[p]
    keep = yt.copy(), yp.copy()
    names = c.py.sample(NAMES, c.py.randint(1, 3))
    got = compute_metrics(yt, yp, names)
    c.check(list(got) == names, "reported names", f"{list(got)} for {names}")
    for m in names:
        c.check(close(got[m], own(m, yt.tolist(), yp.tolist())), "value of " + m, lambda m=m: f"{m} {got[m]}, counted {own(m, yt.tolist(), yp.tolist())} for {short(yt.tolist())} {short(yp.tolist())}")
        c.check(n == 0 or 0.0 <= got[m] <= 1.0, "range", f"{m} {got[m]}")
    c.check(np.array_equal(keep[0], yt) and np.array_equal(keep[1], yp), "inputs kept", "labels changed")
    if n:
        perm = c.rng.permutation(n)
        other = compute_metrics(yt[perm], yp[perm], names)
        c.check(all(close(got[m], other[m]) for m in names), "row order", lambda: f"{got} became {other} with rows permuted")
        new = c.rng.permutation(len(pool)) * 7 - 5
        other = compute_metrics(new[t], new[p], names)
        c.check(all(close(got[m], other[m]) for m in names), "label coding", lambda: f"{got} became {other} with classes recoded")
        rep = compute_metrics(np.tile(yt, 3), np.tile(yp, 3), names)
        c.check(all(close(got[m], rep[m]) for m in names), "repeated rows", lambda: f"{got} became {rep} with rows repeated")
        if n > 1 and "accuracy" in names:
            h = c.py.randrange(1, n)
            a, b = compute_metrics(yt[:h], yp[:h], ["accuracy"])["accuracy"], compute_metrics(yt[h:], yp[h:], ["accuracy"])["accuracy"]
            c.check(close(got["accuracy"], (a * h + b * (n - h)) / n), "parts of the rows", f"{a}/{h} {b}/{n - h}")
        if code != "obj":
            from sklearn import metrics as sk

            ref = {"accuracy": lambda: sk.accuracy_score(yt, yp), "balanced_accuracy": lambda: np.mean(sk.recall_score(yt, yp, labels=np.unique(yt), average=None, zero_division=0)),
                   "macro_f1": lambda: sk.f1_score(yt, yp, labels=np.unique(yt), average="macro", zero_division=0)}
            for m in names:
                c.check(abs(got[m] - ref[m]()) < 1e-9, "scikit-learn " + m, lambda m=m: f"{m} {got[m]} vs {ref[m]()}")
        if any(0 < v < 1 for v in got.values()):
            c.nontrivial((tuple(sorted(names)), code, len(set(t.tolist()) - set(p.tolist())) > 0, len(set(p.tolist()) - set(t.tolist())) > 0, len(pool)))


@M.scenario(quick=1800, thorough=20000)
def whole(c):
    """evaluate(): containers, one-hot truths, score matrices."""
    import torch
    from modssc.evaluation import evaluate

    n, k = c.pick([1, 3, 10, 40]), c.py.randint(2, 5)
    t = c.rng.integers(0, k, n)
    s = c.rng.normal(size=(n, k)) if c.chance(0.6) else c.rng.integers(0, 3, size=(n, k)).astype(float)
    if c.chance(0.5):
        s[np.arange(n), t] += c.pick([0.5, 3.0])
    s = s.astype(c.pick([np.float32, np.float64]))
    p = np.array([int(np.flatnonzero(r == r.max())[0]) for r in s])
    if c.chance(0.15):  # label names instead of codes
        names = np.array([f"class {9 - i}" for i in range(k)], dtype=c.pick([object, str]))
        tn, pn = names[t], names[p]
        got = evaluate(tn.tolist() if c.chance(0.4) else tn, pn.tolist() if c.chance(0.4) else pn, NAMES)
        c.check(all(close(got[m], own(m, t.tolist(), p.tolist())) for m in NAMES), "evaluate label names", lambda: f"{got} for {short(tn.tolist())} {short(pn.tolist())}")
    want = {m: own(m, t.tolist(), p.tolist()) for m in NAMES}
    box = {"np": lambda a: a, "list": lambda a: a.tolist(), "torch": lambda a: torch.tensor(a), "grad": lambda a: torch.tensor(a, requires_grad=a.dtype.kind == "f")}
    tk, pk = c.pick(sorted(box)), c.pick(sorted(box))
    truth = np.eye(k)[t] if c.chance(0.4) else t
    pred = s if c.chance(0.6) else p
    got = evaluate(box[tk](truth), box[pk](pred), NAMES)
    c.check(all(close(got[m], want[m]) for m in NAMES), "evaluate", lambda: f"{got} expected {want}; truth {tk} {truth.ndim}D, predictions {pk} {np.ndim(pred)}D")
    c.nontrivial((tk, pk, truth.ndim, np.ndim(pred), k))


@M.scenario(quick=120, thorough=600)
def refused(c):
    from modssc.evaluation import compute_metrics, evaluate, list_metrics

    t = np.array([0, 1, 1])
    bad = c.pick(["auc", "Accuracy", "", "f1", "accuracy "])
    at = c.py.sample(NAMES, 2) + [bad]
    c.py.shuffle(at)
    c.raises(ValueError, lambda: c.pick([compute_metrics, evaluate])(t, t, at), "unknown metric")
    n, m = c.pick([(3, 1), (1, 3), (3, 2), (5, 4), (2, 40)])
    yt, yp = c.rng.integers(0, 3, n), c.rng.integers(0, 3, m)
    sc = np.eye(3)[yp]
    one = [c.pick(NAMES)]
    c.raises(ValueError, lambda: compute_metrics(yt, yp, one), "labels and predictions of different lengths")
    c.raises(ValueError, lambda: evaluate(yt, c.pick([yp, sc, yp.tolist()]), one), "labels and predictions of different lengths")
    c.check(list_metrics() == NAMES, "listed metrics", str(list_metrics()))
    c.nontrivial((bad,))
