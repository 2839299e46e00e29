"""I03: the self-labelling methods choose, label and accumulate exactly the examples their rule names."""

import functools
import importlib

import numpy as np

from modssc.inductive.registry import get_method_class
from modssc.inductive.types import DeviceSpec, InductiveDataset

from vf import scripted, ssref
from vf.core import Module

M = Module(
    "I03",
    rule="The methods run over a scripted base classifier whose scores are a known function of the row and of the set it was trained on; the training set each one ends with is compared "
    "with an own model of its loop. Non-trivial: distinct (method, backend, label set, limits) where at least one example was self-labelled.",
    preload=["torch", "modssc.inductive.registry"],
)


def unambiguous(fn):
    @functools.wraps(fn)
    def run(c):
        try:
            fn(c)
        except ssref.Ambiguous:
            c.count("ambiguous_ties")

    return run


CPU = DeviceSpec(device="cpu")
LABELS = [[0, 1], [0, 1, 2], [2, 5], [-3, 0, 7], [10, 11, 12, 13]]


def make(mid, **kw):
    cls = get_method_class(mid)
    mod = importlib.import_module(cls.__module__)
    spec = next(v for n, v in vars(mod).items() if n.lower() == mid.replace("_", "") + "spec")
    return cls(spec(**kw))


def rows(c, ids, hints, dim=3, span=40):
    """Inputs carrying identity and leaning, plus integer coordinates."""
    rest = c.rng.integers(-span, span, (len(ids), dim))
    return np.concatenate([np.asarray(ids)[:, None], np.asarray(hints)[:, None], rest], axis=1).astype(np.float32)


class Problem:
    def __init__(self, c, labels=None, nl=None, nu=None):
        scripted.install()
        self.labels = labels or c.pick(LABELS)
        k = len(self.labels)
        self.nl, self.nu = nl or c.py.randint(k, 8), c.py.randint(1, 16) if nu is None else nu
        self.back = c.pick(["numpy", "torch"])
        self.seed = c.py.randrange(1000)
        self.kw = dict(sharp=c.pick([1.0, 3.0, 8.0]), lean=c.pick([0.0, 1.0, 3.0]))
        self.y = np.array((self.labels * 8)[: self.nl])
        c.rng.shuffle(self.y)
        self.y[:k] = self.labels
        self.hl, self.hu = self.y.copy(), c.rng.choice(self.labels, self.nu)
        if c.chance(0.4):
            self.hl = c.rng.choice(self.labels, self.nl)
        perm = c.rng.permutation(200)
        self.il, self.iu = perm[: self.nl], perm[self.nl : self.nl + self.nu]
        self.Xl, self.Xu = rows(c, self.il, self.hl), rows(c, self.iu, self.hu)
        self.L = [(int(i), int(v)) for i, v in zip(self.il, self.y)]
        self.Lrows = [(int(i), int(h)) for i, h in zip(self.il, self.hl)]
        self.U = [(int(i), int(h)) for i, h in zip(self.iu, self.hu)]

    def t(self, a):
        if self.back == "numpy":
            return np.array(a)
        import torch

        return torch.as_tensor(np.array(a))

    def data(self, **kw):
        return InductiveDataset(X_l=self.t(self.Xl), y_l=self.t(self.y), X_u=self.t(self.Xu), **kw)

    def spec(self, **kw):
        return dict(classifier_id="vf_scripted", classifier_backend=self.back, classifier_params=self.kw, **kw)


def compare(c, name, got, want, start):
    a, b = sorted(got), sorted(want)
    c.check(
        a == b,
        "self-labelled-set-differs",
        lambda: f"{name}: {len(a)} pairs, model {len(b)}; only in the method {sorted(set(a) - set(b))[:6]}, only in the model {sorted(set(b) - set(a))[:6]}",
    )
    c.count("self_labelled_examples", len(a) - len(start))


def thresholds(c, k, p=None):
    """A threshold; sometimes exactly a score that occurs ("at least the threshold" includes it)."""
    if p is not None and c.chance(0.35):
        m = ssref.Model(c.pick([p.seed, p.seed, p.seed + 1]), p.kw).fit(p.L)
        return float(c.pick(m.scores(p.U).max(axis=1).tolist()))
    return c.pick([0.0, 1.0 / k, 0.6, 0.8, 0.95])


@M.scenario(quick=600, thorough=8000)
@unambiguous
def pseudo_label(c):
    p = Problem(c)
    o = dict(max_iter=c.pick([0, 1, 2, 10]), max_new=c.pick([None, 1, 2, 5]), min_new=c.pick([1, 1, 2, 4]), threshold=thresholds(c, len(p.labels), p))
    m = make("pseudo_label", **p.spec(max_iter=o["max_iter"], confidence_threshold=o["threshold"], max_new_labels=o["max_new"], min_new_labels=o["min_new"]))
    m.fit(p.data(), device=CPU, seed=p.seed)
    want = ssref.pseudo_label(p.L, p.U, p.seed, p.kw, **o)
    compare(c, f"pseudo_label {p.back} {o} labels {p.labels}", m._clf.train, want, p.L)
    if len(want) > len(p.L):
        c.nontrivial(("pseudo_label", p.back, str(p.labels), str(o)))


@M.scenario(quick=1500, thorough=20000)
@unambiguous
def self_training(c):
    p = Problem(c, nu=c.pick([None, None, c.py.randint(12, 30)]))
    groups = c.chance(0.7)
    o = dict(max_iter=c.pick([1, 2, 3, 10]), max_new=c.pick([None, None, 1, 3]), min_new=c.pick([1, 2]), threshold=c.pick([None, thresholds(c, len(p.labels), p), thresholds(c, len(p.labels), p)]))
    extra, meta = {}, None
    if groups:
        ng = c.py.randint(1, 5)
        gl, gu = c.rng.integers(0, ng, p.nl), c.rng.integers(0, ng + 1, p.nu)
        with_l = c.chance(0.7)
        meta = {c.pick(["group_u", "groups_u", "discourse_u"]): p.t(gu)}
        if with_l:
            meta[c.pick(["group_l", "l_groups"])] = p.t(gl)
        extra = dict(gcount=c.pick([1, 2, 3]), gfrac=c.pick([0.0, 0.3, 0.5, 0.6, 1.0]), gconf=c.pick([None, 0.5, 0.7, 0.8, 0.9]))
        extra["gu"] = dict(zip(p.iu.tolist(), gu.tolist()))
        extra["gl"] = dict(zip(p.il.tolist(), gl.tolist())) if with_l else None
    kw = dict(max_iter=o["max_iter"], confidence_threshold=o["threshold"], max_new_labels=o["max_new"], min_new_labels=o["min_new"])
    if groups:
        kw.update(group_min_count=extra["gcount"], group_min_fraction=extra["gfrac"], group_confidence_threshold=extra["gconf"])
    m = make("self_training", **p.spec(**kw))
    m.fit(p.data(meta=meta), device=CPU, seed=p.seed)
    want = ssref.self_training(p.L, p.U, p.seed, p.kw, **o, **extra)
    compare(c, f"self_training {p.back} {o} { ({k: v for k, v in extra.items() if k not in ('gu', 'gl')}) } labels {p.labels}", m._clf.train, want, p.L)
    if len(want) > len(p.L):
        c.nontrivial(("self_training", p.back, str(p.labels), str(o), groups, str(kw)))


@M.scenario(quick=600, thorough=8000)
@unambiguous
def co_training(c):
    p = Problem(c)
    o = dict(max_iter=c.pick([1, 3, 20]), k=c.pick([1, 2, 4]), threshold=c.pick([None, thresholds(c, len(p.labels), p)]))
    ids2l, ids2u = p.il + 1000, p.iu + 1000
    h2l, h2u = p.y, c.rng.choice(p.labels, p.nu)
    X2l, X2u = rows(c, ids2l, h2l), rows(c, ids2u, h2u)
    names = c.pick([("a", "b"), ("b", "a"), ("text", "image")])
    pair = {names[0]: (p.Xl, p.Xu), names[1]: (X2l, X2u)}
    as_tuple = c.chance(0.3)
    views = {k: (p.t(v[0]), p.t(v[1])) if as_tuple else {"X_l": p.t(v[0]), "X_u": p.t(v[1])} for k, v in pair.items()}
    explicit = c.chance(0.5)
    m = make("co_training", **p.spec(max_iter=o["max_iter"], k_per_class=o["k"], confidence_threshold=o["threshold"], view_keys=names if explicit else None))
    m.fit(p.data(views=views), device=CPU, seed=p.seed)
    first = names[0] if explicit else sorted(names)[0]
    V = {names[0]: (p.L, p.U), names[1]: ([(i + 1000, v) for i, v in p.L], [(int(i), int(h)) for i, h in zip(ids2u, h2u)])}
    second = names[1] if first == names[0] else names[0]
    T1, T2 = ssref.co_training(V[first][0], V[second][0], V[first][1], V[second][1], p.seed, p.kw, **o)
    name = f"co_training {p.back} {o} labels {p.labels} views {names}"
    compare(c, name + " first view", m._clf1.train, T1, p.L)
    compare(c, name + " second view", m._clf2.train, T2, p.L)
    # prediction: the mean of the two views' probabilities
    q = {k: p.t(v[1]) for k, v in pair.items()}
    P = np.asarray(m.predict_proba(InductiveDataset(X_l=p.t(p.Xu), y_l=p.t(p.hu), views=q)))
    a, b = ssref.Model(p.seed, p.kw).fit(T1), ssref.Model(p.seed, p.kw).fit(T2)
    if a.classes == b.classes:
        want = (a.scores(V[first][1]).astype(float) + b.scores(V[second][1])) / 2
        c.check(np.allclose(P, want, atol=1e-5), "ensemble-differs", lambda: f"{name}: {np.abs(P - want).max()}")
    if len(T1) + len(T2) > 2 * len(p.L):
        c.nontrivial(("co_training", p.back, str(p.labels), str(o)))


@M.scenario(quick=600, thorough=8000)
@unambiguous
def tri_training(c):
    p = Problem(c)
    ratio = c.pick([0.5, 1.0, 1.5])
    o = dict(max_iter=c.pick([1, 2, 20]), threshold=c.pick([None, thresholds(c, len(p.labels), p)]), max_new=c.pick([None, 1, 3]))
    m = make("tri_training", **p.spec(max_iter=o["max_iter"], confidence_threshold=o["threshold"], max_new_labels=o["max_new"], bootstrap_ratio=ratio))
    m.fit(p.data(), device=CPU, seed=p.seed)
    size = max(1, int(round(ratio * p.nl)))
    if p.back == "numpy":
        g = np.random.default_rng(p.seed)
        boots = [g.choice(p.nl, size=size, replace=True).tolist() for _ in range(3)]
    else:
        import torch

        g = torch.Generator().manual_seed(p.seed)
        boots = [torch.randint(0, p.nl, (size,), generator=g).tolist() for _ in range(3)]
    want = ssref.tri_training(p.L, p.U, boots, p.seed, p.kw, **o)
    name = f"tri_training {p.back} {o} ratio {ratio} labels {p.labels}"
    for i, clf in enumerate(m._clfs):
        c.check(sorted(clf.train) == sorted(want[i]), "self-labelled-set-differs", lambda i=i, clf=clf: f"{name} learner {i}: {sorted(clf.train)}, model {sorted(want[i])}")
        c.count("self_labelled_examples", len(want[i]) - size)
    # prediction: mean over the learners, absent classes counting zero
    names = sorted({v for t in want for _, v in t})
    P = np.zeros((p.nu, len(names)))
    for i, t in enumerate(want):
        r = ssref.Model(p.seed + i, p.kw).fit(t)
        for j, v in enumerate(r.classes):
            P[:, names.index(v)] += r.scores(p.U)[:, j] / 3
    got = np.asarray(m.predict_proba(p.t(p.Xu)))
    c.check(got.shape == P.shape and np.allclose(got, P, atol=1e-5), "ensemble-differs", lambda: f"{name}: {got[:2]}, model {P[:2]}")
    if sum(map(len, want)) > 3 * size:
        c.nontrivial(("tri_training", p.back, str(p.labels), str(o)))


@M.scenario(quick=600, thorough=8000)
@unambiguous
def democratic(c):
    p = Problem(c)
    n = c.py.randint(3, 5)
    o = dict(max_iter=c.pick([1, 2, 20]), level=c.pick([0.5, 0.9, 0.95]))
    minc = c.pick([0.0, 0.5, 0.8])
    kws = [dict(p.kw, lean=c.pick([1.0, 3.0])) for _ in range(n)]
    kw = p.spec(max_iter=o["max_iter"], confidence_level=o["level"], min_confidence=minc, n_learners=n)
    if c.chance(0.5):
        from modssc.inductive.methods.helpers.classifier_bridge import BaseClassifierSpec

        kw["classifier_specs"] = tuple(BaseClassifierSpec(classifier_id="vf_scripted", classifier_backend=p.back, classifier_params=k) for k in kws)
    else:
        kws = [p.kw] * n
    m = make("democratic_co_learning", **kw)
    m.fit(p.data(), device=CPU, seed=p.seed)
    hints = dict(zip([int(i) for i in np.concatenate([p.il, p.iu])], [int(h) for h in np.concatenate([p.hl, p.hu])]))
    got = ssref.democratic(p.L, p.Lrows, p.U, [p.seed + i for i in range(n)], kws, hints=hints, **o)
    T, w = got
    name = f"democratic {p.back} {o} learners {n} labels {p.labels}"
    for i, clf in enumerate(m._clfs):
        compare(c, f"{name} learner {i}", clf.train, T[i], p.L)
    # prediction: eligible learners grouped by vote, mean weight with a Laplace-like correction
    ok = [x > minc for x in w]
    ok = ok if any(ok) else [True] * n
    want = np.zeros((p.nu, len(p.labels)))
    labels = sorted(p.labels)
    preds = [ssref.Model(p.seed + i, kws[i]).fit(T[i]).predict(p.U) for i in range(n)]
    for r in range(p.nu):
        for j, v in enumerate(labels):
            votes = [w[i] for i in range(n) if ok[i] and preds[i][r] == v]
            if votes:
                want[r, j] = np.mean(votes) * (len(votes) + 0.5) / (len(votes) + 1)
    s = want.sum(axis=1, keepdims=True)
    if s.min() > 0 and min(abs(x - minc) for x in w) > 1e-6:
        P = np.asarray(m.predict_proba(p.t(p.Xu)))
        c.check(np.allclose(P, want / s, atol=1e-5), "ensemble-differs", lambda: f"{name}: {P[:2]}, model {(want / s)[:2]}")
    if sum(map(len, T)) > n * p.nl:
        c.nontrivial(("democratic", p.back, str(p.labels), str(o), n))


@M.scenario(quick=240, thorough=5000)
@unambiguous
def s4vm(c):
    p = Problem(c, labels=c.pick([[0, 1], [2, 5], [-1, 1]]))
    o = dict(k=c.pick([1, 3, 6]), rate=c.pick([0.0, 0.05, 0.1, 0.3]))
    m = make("s4vm", **p.spec(k_candidates=o["k"], flip_rate=o["rate"]))
    m.fit(p.data(), device=CPU, seed=p.seed)
    want = ssref.s4vm(p.L, p.Lrows, p.U, p.seed, p.kw, **o)
    compare(c, f"s4vm {p.back} {o} labels {p.labels}", m._clf.train, want, p.L)
    if len(want) > len(p.L):
        c.nontrivial(("s4vm", p.back, str(p.labels), str(o)))


@M.scenario(quick=800, thorough=10000)
@unambiguous
def setred(c):
    p = Problem(c)
    if c.chance(0.4):  # several rows at one place
        for X in (p.Xl, p.Xu):
            X[:, 2:] = np.array(c.rng.integers(-3, 3, (4, 3)))[c.rng.integers(0, 4, len(X))]
    twice = c.chance(0.4)
    if twice:  # whole examples occurring twice
        for X, ids, keep in ((p.Xl, p.il, p.nl), (p.Xu, p.iu, p.nu)):
            for _ in range(c.py.randint(0, keep)):
                a, b = c.py.randrange(keep), c.py.randrange(keep)
                X[a], ids[a] = X[b], ids[b]
        p.hl, p.hu = p.Xl[:, 1].astype(int), p.Xu[:, 1].astype(int)
        p.L = [(int(i), int(v)) for i, v in zip(p.il, p.y)]
        p.U = [(int(i), int(h)) for i, h in zip(p.iu, p.hu)]
    o = dict(
        max_iter=c.pick([1, 3, 10]),
        pool_size=c.pick([None, None, 4, 8]),
        max_new=c.pick([None, 2, 5]),
        min_new=c.pick([0, 1, 2]),
        threshold=c.pick([None, thresholds(c, len(p.labels), p)]),
        theta=c.pick([0.05, 0.3, 0.7, 0.95]),
        graph=c.pick(["rng", "knn"]),
        knn=c.pick([1, 2, 4, 30]),
        weight=c.pick(["uniform", "distance", "inverse_distance"]),
    )
    if twice and c.chance(0.6):  # every example is a neighbour: duplicates leave no tie
        o.update(graph="knn", knn=30, weight=c.pick(["uniform", "uniform", "distance"]), min_new=1, max_new=None, threshold=c.pick([None, 0.0]), pool_size=None, theta=c.pick([0.3, 0.7]))
    m = make(
        "setred",
        **p.spec(
            max_iter=o["max_iter"],
            pool_size=o["pool_size"],
            max_new_labels=o["max_new"],
            min_new_labels=o["min_new"],
            confidence_threshold=o["threshold"],
            theta=o["theta"],
            graph_type=o["graph"],
            knn_k=o["knn"],
            edge_weight=o["weight"],
        ),
    )
    m.fit(p.data(), device=CPU, seed=p.seed)
    pts = {int(x[0]): x.astype(np.int64) for x in np.concatenate([p.Xl, p.Xu])}
    want = ssref.setred(p.L, p.U, pts, p.seed, p.kw, **o)
    compare(c, f"setred {p.back} {o} labels {p.labels}", m._clf.train, want, p.L)
    if len(want) > len(p.L):
        c.nontrivial(("setred", p.back, str(p.labels), o["graph"], o["weight"], o["theta"]))
