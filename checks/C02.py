"""C02: every classifier computes the model it is named after."""
import numpy as np

from checks.C01 import fit, problem
from vf import supref, suptab
from vf.core import Module
from vf.suptab import to_np

M = Module(
    "C02",
    rule="k-nearest-neighbour votes are recomputed pair by pair in double precision, wrapped estimators are compared with the library estimator built by hand from the documented "
    "parameters, and networks with own forward passes and training loops under the same seed. Non-trivial: distinct (classifier, backend, parameter shape).",
    preload=["torch", "sklearn", "sklearn.ensemble", "sklearn.svm", "torch_geometric.nn", "torchvision"],
)


@M.scenario(quick=150, thorough=8000)
def knn_votes(c):
    backend = ["numpy", "torch", "sklearn"][c.index % 3]
    X, y, codes, kind, Q = problem(c, "knn", backend)
    p = suptab.params(c, "knn", backend)
    p["k"] = min(p["k"], len(y)) if backend == "sklearn" else c.pick([p["k"], len(y), len(y) + 4])
    if c.chance(0.2):
        Q = np.concatenate([Q, X[:2]])  # exact hits
    clf = fit("knn", backend, p, X, y)
    P = to_np(clf.predict_proba(suptab.wrap(Q, "knn", backend)))
    A, B = X.astype(np.float64), Q.astype(np.float64)
    names = np.unique(y)
    used = 0
    for r, q in enumerate(B):
        if p["metric"] == "euclidean":
            d = ((A - q) ** 2).sum(axis=1)
        else:
            d = 1 - A @ q / (np.linalg.norm(A, axis=1) * np.linalg.norm(q))
        o = np.argsort(d, kind="stable")
        k = min(p["k"], len(y))
        if k < len(y) and d[o[k]] - d[o[k - 1]] < 1e-3 * max(1e-3, d[o[k]]) + 1e-5:
            continue  # tie at the k-th neighbour
        near = o[:k]
        if p["weights"] == "uniform":
            w, tol = np.ones(k), 1e-5
        elif backend == "sklearn":  # the library weighs by distance, not by its square
            dd = np.sqrt(d[near]) if p["metric"] == "euclidean" else d[near]
            if dd.min() < 1e-3:
                continue
            w, tol = 1 / dd, 1e-3
        else:
            if d[near].min() < 1e-3:
                hit = d[near] < 1e-10
                if hit.sum() == 1 and d[near][~hit].min(initial=1) > 1e-2 and p["metric"] == "euclidean":
                    c.check(P[r].argmax() == np.searchsorted(names, y[near][hit])[0], "exact-match-outvoted", lambda: f"{backend} {p}: {P[r]}")
                continue
            w, tol = 1 / d[near], 5e-3
        want = np.array([w[y[near] == v].sum() for v in names])
        want = want / want.sum()
        c.check(np.allclose(P[r], want, atol=tol), "knn-vote-wrong", lambda: f"{backend} {p} n={len(y)} row {r}: {P[r]}, brute force {want}")
        used += 1
    c.count("rows_recomputed", used)
    if used:
        c.nontrivial(("knn", backend, p["metric"], p["weights"], p["k"] >= len(y)))


def library(cid, p, seed):
    """The scikit-learn estimator the wrapper stands for, from its documented parameters."""
    from sklearn import ensemble, linear_model, naive_bayes, svm

    q = dict(p)
    if cid == "logreg":
        return linear_model.LogisticRegression(C=q["C"], solver=q["solver"], max_iter=q["max_iter"], random_state=seed)
    if cid == "linear_svm":
        return svm.LinearSVC(random_state=seed, dual=True, **q)
    if cid == "ridge":
        return linear_model.RidgeClassifier(random_state=seed, tol=1e-3, **q)
    if cid == "svm_rbf":
        g = 1 / (2 * q["sigma"] ** 2) if "sigma" in q else q.get("gamma", "scale")
        return svm.SVC(kernel="rbf", C=q["C"], gamma=g, probability=q["probability"], random_state=seed)
    if cid == "gaussian_nb":
        return naive_bayes.GaussianNB(**q)
    if cid == "multinomial_nb":
        return naive_bayes.MultinomialNB(**q)
    if cid == "bernoulli_nb":
        return naive_bayes.BernoulliNB(**q)
    cls = {"random_forest": ensemble.RandomForestClassifier, "extra_trees": ensemble.ExtraTreesClassifier, "gradient_boosting": ensemble.GradientBoostingClassifier}[cid]
    return cls(random_state=seed, **q)


@M.scenario(quick=200, thorough=10000)
def library_estimators(c):
    cid = suptab.SK[1:][c.index % (len(suptab.SK) - 1)]
    X, y, codes, kind, Q = problem(c, cid, "sklearn")
    p = suptab.params(c, cid, "sklearn")
    seed = c.py.randrange(1000)
    if c.chance(0.3) and X.ndim == 2:  # more than two axes: flattened row by row
        k = c.py.randint(2, 3)
        X = np.repeat(X[:, None, :], k, axis=1) * np.arange(1, k + 1)[None, :, None]
        Q = np.repeat(Q[:, None, :], k, axis=1) * np.arange(1, k + 1)[None, :, None]
    clf = fit(cid, "sklearn", p, X, y, seed)
    X2, Q2 = X.reshape(len(X), -1), Q.reshape(len(Q), -1)
    ref = library(cid, p, seed).fit(X2, np.unique(y, return_inverse=True)[1])
    names = np.unique(y)
    c.check(np.array_equal(clf.predict(Q), names[ref.predict(Q2)]), "wrapper-predicts-otherwise", lambda: f"{cid} {p}: {clf.predict(Q)}, library {names[ref.predict(Q2)]}")
    if clf.supports_proba:
        P, R = clf.predict_proba(Q), ref.predict_proba(Q2)
        c.check(np.allclose(P, R, atol=1e-6), "wrapper-proba-differs", lambda: f"{cid} {p}: off by {np.abs(P - R).max()}")
    if hasattr(ref, "decision_function") and cid != "gradient_boosting":
        S, D = clf.predict_scores(Q), ref.decision_function(Q2)
        D = np.stack([-D, D], axis=1) if D.ndim == 1 else D
        c.check(np.allclose(S, D, rtol=1e-5, atol=1e-6), "wrapper-scores-differ", lambda: f"{cid} {p}: off by {np.abs(S - D).max()}")
    c.nontrivial((cid, str(p.get("solver", p.get("gamma", ""))), len(names), X.ndim))


@M.scenario(quick=140, thorough=6000)
def networks(c):
    cid = suptab.NN[c.index % len(suptab.NN)]
    X, y, codes, kind, Q = problem(c, cid, "torch")
    p = suptab.params(c, cid, "torch")
    if cid == "text_cnn" and min(p["kernel_sizes"]) > X.shape[1]:
        p["kernel_sizes"] = (2,)
    tol = 2e-4
    if cid == "audio_cnn_scratch":  # batch statistics of few rows amplify rounding
        p["lr"], tol = 1e-3, 2e-3
    seed = c.py.randrange(1000)
    P = to_np(fit(cid, "torch", p, X, y, seed).predict_proba(suptab.wrap(Q, cid, "torch")))
    R = supref.train(cid, p, X, y, seed)(Q)
    c.check(np.allclose(P, R, atol=tol), "network-differs", lambda: f"{cid} {p} n={len(y)}: off by {np.abs(P - R).max()}; got {P[0]}, own network {R[0]}")
    c.nontrivial((cid, p["max_epochs"], p["batch_size"] < len(y), str(p.get("hidden_sizes", p.get("num_layers", p.get("fc_dim"))))))


@M.scenario(quick=30, thorough=1500)
def graphsage(c):
    X, y, codes, kind, Q = problem(c, "graphsage_inductive", "torch")
    p = suptab.params(c, "graphsage_inductive", "torch")
    p["dropout"] = c.pick([0.0, 0.4])
    seed = c.py.randrange(1000)
    clf = fit("graphsage_inductive", "torch", p, X, y, seed)
    ref = supref.train_sage(p, X["x"], X["edge_index"], y, seed)
    P = to_np(clf.predict_proba(suptab.wrap(Q, "graphsage_inductive", "torch")))
    R = ref(Q["x"], Q["edge_index"])
    c.check(np.allclose(P, R, atol=5e-4), "graphsage-differs", lambda: f"{p}: off by {np.abs(P - R).max()}")
    c.nontrivial(("graphsage", str(p.get("hidden_sizes")), p["dropout"] > 0))


@M.scenario(quick=40, thorough=1500)
def fine_tuning(c):
    """The head is always trained; the backbone moves exactly when it is not frozen."""
    import torch

    X, y, codes, kind, Q = problem(c, "image_pretrained", "torch")
    p = suptab.params(c, "image_pretrained", "torch")
    p.update(max_epochs=2, lr=0.05, weight_decay=0.0)
    init = {}
    from modssc.supervised.backends.torch import image_pretrained as ip

    load = ip._load_model

    def spy(*a):
        m = load(*a)
        init.update({k: v.clone() for k, v in m.state_dict().items()})
        return m

    ip._load_model = spy
    try:
        clf = fit("image_pretrained", "torch", p, X, y, c.py.randrange(1000))
    finally:
        ip._load_model = load
    now = clf._model.state_dict()
    moved = sorted(k for k in now if not k.startswith("fc.") and not torch.equal(now[k], init[k]))
    if p["freeze_backbone"]:
        c.check(not moved, "frozen-backbone-moved", lambda: f"{p}: {moved}")
    else:
        c.check({"conv.weight", "bn.weight", "bn.running_mean"} <= set(moved), "backbone-not-trained", lambda: f"{p}: only {moved} moved")
    P = to_np(clf.predict_proba(suptab.wrap(Q, "image_pretrained", "torch")))
    Q3 = np.repeat(Q, 3, axis=1) if Q.shape[1] == 1 else Q
    model = clf._model.eval()
    with torch.no_grad():
        R = torch.softmax(model(torch.as_tensor(Q3)), dim=1).numpy()
    c.check(np.allclose(P, R, atol=1e-5), "prediction-not-of-the-model", lambda: f"{p}: off by {np.abs(P - R).max()}")
    c.nontrivial((p["freeze_backbone"], X.shape[1], len(np.unique(y))))
