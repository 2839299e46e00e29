"""C01: every classifier honours the shared fit/predict contract, whatever the backend."""
import numpy as np

from modssc.supervised.api import available_classifiers, classifier_info, create_classifier
from modssc.supervised.errors import NotSupportedError, UnknownBackendError, UnknownClassifierError
from modssc.supervised.types import ClassifierRuntime

from vf import gen, suptab
from vf.core import Inconclusive, Module
from vf.suptab import to_np

M = Module(
    "C01",
    rule="Each classifier of each backend is fitted on random small data with random parameters and label spaces; labels, scores and probabilities it returns are checked against each "
    "other and against the same model seen through row subsets, row orders and renamed labels. Non-trivial: distinct (classifier, backend, label kind, relation).",
    preload=["torch", "sklearn", "sklearn.ensemble", "sklearn.svm", "torch_geometric.nn", "torchvision"],
)


def problem(c, cid, backend, n=None, k=None):
    k = k or c.py.randint(2, 4)
    n = n or c.py.randint(max(12, 2 * k), 30)
    y, codes, kind = suptab.labels_for(c, cid, backend, n, k)
    X, shape = suptab.features(c, cid, backend, n, codes)
    m = c.py.randint(2, 12)
    Q, _ = suptab.features(c, cid, backend, m, c.rng.integers(0, k, m), shape)
    if cid == "graphsage_inductive":
        X = {"x": X, "edge_index": c.rng.integers(0, n, (2, 3 * n))}
        Q = {"x": Q, "edge_index": c.rng.integers(0, m, (2, 2 * m))}
    return X, y, codes, kind, Q


def fit(cid, backend, p, X, y, seed=0):
    clf = create_classifier(cid, backend=backend, params=dict(p), runtime=ClassifierRuntime(seed=seed))
    yy = suptab.wrap(np.asarray(y), "", backend)
    clf.fit(suptab.wrap(X, cid, backend), yy)
    return clf


def rows(X, idx):
    if isinstance(X, dict):
        raise Inconclusive("graph rows are not independent")
    return X[idx]


def scores_agree(c, name, labels, classes, S, tol=1e-6):
    """predict must name a class whose score is maximal (up to rounding)."""
    pos = np.searchsorted(classes, labels)
    best = S.max(axis=1)
    scale = np.maximum(np.abs(S).max(axis=1), 1.0)
    c.check(np.all(best - S[np.arange(len(pos)), pos] <= tol * scale), "prediction-not-the-top-score", lambda: f"{name}: predicted columns {pos.tolist()}, scores {S.round(5).tolist()}")


@M.scenario(quick=200, thorough=8000)
def contract(c):
    cid, backend = suptab.ALL[c.index % len(suptab.ALL)]
    X, y, codes, kind, Q = problem(c, cid, backend)
    p = suptab.params(c, cid, backend)
    name = f"{cid}/{backend} {p} labels {kind}"
    before = gen.digest([X, y, Q]) if not isinstance(X, dict) else gen.digest([X["x"], X["edge_index"], y, Q["x"], Q["edge_index"]])
    clf = fit(cid, backend, p, X, y)
    k = len(np.unique(y))
    classes = to_np(clf.classes_)
    c.check(np.array_equal(classes, np.unique(y)), "classes-wrong", lambda: f"{name}: {classes} for labels {np.unique(y)}")
    c.check(clf.n_classes_ == k, "classes-wrong", name)
    q = suptab.wrap(Q, cid, backend)
    m = len(Q["x"]) if isinstance(Q, dict) else len(Q)
    pred = to_np(clf.predict(q))
    c.check(pred.shape == (m,), "prediction-shape", lambda: f"{name}: {pred.shape}")
    c.check(np.isin(pred, classes).all(), "prediction-outside-labels", lambda: f"{name}: {pred} not among {classes}")
    c.check(backend == "torch" or pred.dtype.kind == y.dtype.kind, "prediction-label-type", lambda: f"{name}: {pred.dtype} for {y.dtype}")
    S = to_np(clf.predict_scores(q))
    c.check(S.shape == (m, k), "scores-shape", lambda: f"{name}: {S.shape}, want {(m, k)}")
    if not (cid == "svm_rbf" and k > 2):  # libsvm votes one-vs-one, ties may differ from the ovr scores
        scores_agree(c, name, pred, classes, S)
    if clf.supports_proba:
        P = to_np(clf.predict_proba(q))
        c.check(P.shape == (m, k), "proba-shape", lambda: f"{name}: {P.shape}")
        c.check(np.isfinite(P).all() and P.min() >= 0 and np.allclose(P.sum(axis=1), 1, atol=1e-5), "proba-invalid", lambda: f"{name}: sums {P.sum(axis=1)}, min {P.min()}")
        if cid != "svm_rbf":  # Platt scaling is fitted apart from the decision function
            scores_agree(c, name, pred, classes, P, tol=2e-6)
    else:
        c.check(cid in suptab.DECISION, "probabilities-missing", name)
        c.raises(NotSupportedError, lambda: clf.predict_proba(q), "unsupported-proba-answered", name)
    after = gen.digest([X, y, Q]) if not isinstance(X, dict) else gen.digest([X["x"], X["edge_index"], y, Q["x"], Q["edge_index"]])
    c.check(before == after, "inputs-changed", name)
    r = clf._fit_result if cid != "graphsage_inductive" else None
    if r is not None and cid not in ("image_pretrained",):
        c.check(r.n_samples == len(y) and r.n_classes == k, "fit-result-wrong", lambda: f"{name}: {r}")
    c.nontrivial((cid, backend, kind, "contract"))


@M.scenario(quick=200, thorough=8000)
def relations(c):
    cid, backend = suptab.ALL[c.index % len(suptab.ALL)]
    if cid == "graphsage_inductive":
        cid, backend = c.pick(suptab.ALL[:20])
    X, y, codes, kind, Q = problem(c, cid, backend)
    p = suptab.params(c, cid, backend)
    if p.get("probability"):
        p["probability"] = False
    name = f"{cid}/{backend} {p} labels {kind}"
    clf = fit(cid, backend, p, X, y)
    w = lambda A: suptab.wrap(A, cid, backend)  # noqa: E731
    S = to_np(clf.predict_scores(w(Q)))
    scale = max(1.0, np.abs(S).max())
    m = len(Q)
    # one row at a time, reordered, and repeated
    tol = 2e-5 if backend == "torch" or cid == "knn" else 1e-6
    if cid == "knn":
        tol = 1e-4 if p["weights"] == "uniform" else 2e-2
    i = c.py.randrange(m)
    one = to_np(clf.predict_scores(w(Q[i : i + 1])))
    c.check(np.allclose(one[0], S[i], atol=tol * scale), "row-depends-on-its-batch", lambda: f"{name}: row {i} alone {one[0]}, in batch {S[i]}")
    perm = c.rng.permutation(m)
    R = to_np(clf.predict_scores(w(Q[perm])))
    c.check(np.allclose(R, S[perm], atol=tol * scale), "row-depends-on-order", lambda: f"{name}: off by {np.abs(R - S[perm]).max()}")
    # predicting does not change the model
    again = to_np(clf.predict_scores(w(Q)))
    c.check(np.array_equal(again, S), "prediction-changes-model", name)
    # labels renamed with the order kept: same scores, renamed predictions
    names = np.unique(y)
    new = np.sort(c.rng.choice(500, len(names), replace=False)) - 100
    if backend == "sklearn" and c.chance(0.5):
        new = np.array([f"n{v:04d}" for v in new + 100])
    other = fit(cid, backend, p, X, new[np.searchsorted(names, y)])
    T = to_np(other.predict_scores(w(Q)))
    c.check(np.array_equal(T, S), "label-names-matter", lambda: f"{name}: scores move by {np.abs(T - S).max()} when labels are renamed to {new}")
    pa, pb = to_np(clf.predict(w(Q))), to_np(other.predict(w(Q)))
    c.check(np.array_equal(new[np.searchsorted(names, pa)], pb), "label-names-matter", lambda: f"{name}: {pa} became {pb}")
    c.nontrivial((cid, backend, kind, "relations"))


@M.scenario(quick=200, thorough=8000)
def seeded(c):
    cid, backend = suptab.ALL[c.index % len(suptab.ALL)]
    X, y, codes, kind, Q = problem(c, cid, backend)
    p = suptab.params(c, cid, backend)
    seed = c.pick([0, 1, 7, 2**31 - 1])
    if cid in ("image_cnn", "audio_cnn", "image_pretrained") and c.chance(0.6):  # rows given flat, with the image or signal shape as a parameter
        p["input_shape"] = X.shape[1:]
        X, Q = X.reshape(len(X), -1), Q.reshape(len(Q), -1)
    name = f"{cid}/{backend} {p} seed {seed}"
    q = suptab.wrap(Q, cid, backend)
    gen.perturb_global_rng(c)
    clf = fit(cid, backend, p, X, y, seed)
    c.check(clf.seed == seed, "runtime-seed-lost", lambda: f"{name}: {clf.seed}")
    score = clf.predict_proba if cid == "graphsage_inductive" else clf.predict_scores
    S = to_np(score(q))
    gen.perturb_global_rng(c)
    if c.chance(0.5):
        ocid, ob = c.pick(suptab.ALL)
        oX, oy, _, _, _ = problem(c, ocid, ob)
        fit(ocid, ob, suptab.params(c, ocid, ob), oX, oy, 3)
        gen.perturb_global_rng(c)
    twin = fit(cid, backend, {**p, "seed": seed}, X, y, seed + 1 if seed < 2**31 - 1 else 5)
    T = to_np((twin.predict_proba if cid == "graphsage_inductive" else twin.predict_scores)(q))
    c.check(twin.seed == seed, "runtime-overrides-params", name)
    c.check(np.array_equal(S, T), "same-seed-different-model", lambda: f"{name}: scores differ by {np.abs(S - T).max()}")
    # the same object fitted again, possibly after other data
    how = c.pick(["again", "other data first", "other class count first"])
    if how != "again":
        oX, oy, _, _, _ = problem(c, cid, backend, k=None if how.endswith("first") else 2)
        clf.fit(suptab.wrap(oX, cid, backend), suptab.wrap(np.asarray(oy), "", backend))
    gen.perturb_global_rng(c)
    clf.fit(suptab.wrap(X, cid, backend), suptab.wrap(np.asarray(y), "", backend))
    R = to_np((clf.predict_proba if cid == "graphsage_inductive" else clf.predict_scores)(q))
    c.check(R.shape == S.shape and np.array_equal(R, S), "refit-differs", lambda: f"{name} {how}: {R.shape} {np.abs(R - S).max() if R.shape == S.shape else ''}")
    c.nontrivial((cid, backend, how))


@M.scenario(quick=60, thorough=1500)
def factory(c):
    infos = available_classifiers()
    ids = [d["key"] for d in infos]
    c.check(ids == sorted(set(ids)), "registry-not-sorted", str(ids))
    d = infos[c.index % len(infos)]
    cid = d["key"]
    c.check(classifier_info(cid) == d, "registry-info-differs", cid)
    b = c.pick(sorted(d["backends"]))
    rt = ClassifierRuntime(seed=c.pick([0, 5, 11]), n_jobs=c.pick([None, 1, 2]))
    clf = create_classifier(cid, backend=b, runtime=rt)
    c.check(clf.seed == rt.seed, "runtime-seed-lost", lambda: f"{cid}/{b}: {clf.seed} for {rt}")
    c.check(clf.n_jobs == rt.n_jobs, "runtime-jobs-lost", lambda: f"{cid}/{b}: {clf.n_jobs} for {rt}")
    c.check(clf.classifier_id == cid and clf.backend == b, "factory-built-another", lambda: f"{cid}/{b}: got {clf.classifier_id}/{clf.backend}")
    auto = create_classifier(cid)
    first = [x for x in d["preferred_backends"] if x in d["backends"]][0]
    c.check(auto.backend == first, "auto-backend-not-preferred", lambda: f"{cid}: {auto.backend}, preferred {d['preferred_backends']}")
    own = {"seed": 99}
    clf = create_classifier(cid, backend=b, params=own, runtime=rt)
    c.check(clf.seed == 99 and own == {"seed": 99}, "runtime-overrides-params", f"{cid}/{b}")
    c.raises(UnknownClassifierError, lambda: create_classifier(cid + "x"), "unknown-id-accepted", cid)
    c.raises(UnknownBackendError, lambda: create_classifier(cid, backend="nope"), "unknown-backend-accepted", cid)
    c.nontrivial((cid, b, rt.n_jobs))
