"""I01: every inductive method honours the common fit / predict contract and refuses what it cannot train on."""

import copy
import dataclasses

import numpy as np

from modssc.inductive.types import InductiveDataset

from vf import indm
from vf.core import Module

M = Module(
    "I01",
    rule="Real fits and predictions of every method with real base classifiers or monitored networks; monitors judge the outputs, the inputs before and after, the trained networks' state around "
    "prediction, and refusals. Non-trivial: distinct (method, base or network, labels, options) with predictions over more than one class or row.",
    preload=["torch", "sklearn", "modssc.inductive.registry", "modssc.inductive.deep"],
)
REFUSALS = (Exception,)


def leaves(x, path="data"):
    if isinstance(x, InductiveDataset):
        for f in dataclasses.fields(x):
            yield from leaves(getattr(x, f.name), f"{path}.{f.name}")
    elif isinstance(x, dict):
        yield (path + ".keys", repr(list(x)))
        for k, v in x.items():
            yield from leaves(v, f"{path}.{k}")
    elif hasattr(x, "detach"):
        yield (path, (str(x.dtype), tuple(x.shape), x.detach().cpu().numpy().tobytes(), x.requires_grad))
    elif isinstance(x, np.ndarray):
        yield (path, (str(x.dtype), x.shape, x.tobytes(), x.flags.writeable))
    else:
        yield (path, repr(x))


def snap(x):
    return dict(leaves(x))


def unchanged(c, before, x, who, what):
    now = snap(x)
    bad = sorted(k for k in before if before[k] != now.get(k)) + sorted(set(now) - set(before))
    c.check(not bad, "inputs-changed", lambda: f"{who}: {what} changed {bad}")


def num(a):
    return np.asarray(a.detach().cpu().numpy() if hasattr(a, "detach") else a)


def state(m):
    """Everything prediction must leave alone in the trained networks."""
    out = []
    for b in m._vf_bundles:
        for net in (b.model, b.ema_model):
            if net is not None:
                out.append({k: v.clone() for k, v in net.state_dict().items()} | {"training": {n: s.training for n, s in net.named_modules()}, "grad": [None if p.grad is None else p.grad.clone() for p in net.parameters()]})
        out.append({"opt": repr(b.optimizer.state_dict())})
    return out


def same_state(a, b):
    import torch

    for x, y in zip(a, b):
        for k in x:
            u, v = x[k], y[k]
            if isinstance(u, torch.Tensor):
                if not torch.equal(u, v):
                    return k
            elif isinstance(u, list):
                if any((p is None) != (q is None) or (p is not None and not torch.equal(p, q)) for p, q in zip(u, v)):
                    return k
            elif u != v:
                return k
    return None


def outputs(c, d, D, m, who):
    classes = np.unique(D.yl)
    q = D.query()
    before = snap(q)
    P = num(m.predict_proba(q))
    y = num(m.predict(q))
    unchanged(c, before, q, who, "predicting")
    n = len(D.Xt)
    c.check(P.shape == (n, len(d["labels"])), "probability-shape", lambda: f"{who}: probabilities {P.shape} for {n} rows of {len(d['labels'])} classes")
    tol = 1e-9 if P.dtype == np.float64 else 1e-5
    c.check(bool(np.isfinite(P).all() and P.min() >= 0 and np.abs(P.sum(1) - 1).max() <= max(tol, 1e-6)), "not-a-distribution", lambda: f"{who}: rows {P[:3].tolist()}")
    c.check(y.shape == (n,) and y.dtype.kind in "iu" and set(y.tolist()) <= set(int(v) for v in d["labels"]), "unknown-label-predicted", lambda: f"{who}: predicted {sorted(set(y.tolist()))} of {d['labels']}")
    top = np.sort(P, 1)
    clear = top[:, -1] - top[:, -2] > 1e-6
    if d.get("base", [""])[0] != "svm_rbf":
        names = classes if d["mid"] in indm.CLASSIC else np.asarray(d["labels"])
        c.check(bool((names[P.argmax(1)][clear] == y[clear]).all()), "predict-not-the-most-probable", lambda: f"{who}: predicted {y.tolist()} with {P.round(3).tolist()}")
    c.count("rows_predicted", n)
    return P, y


def per_row(c, d, D, m, P, who):
    """The answer for a row does not depend on the rows it is asked with."""
    n = len(D.Xt)
    tol = 1e-9 if P.dtype == np.float64 else 2e-5
    for rows in (c.rng.permutation(n), c.rng.choice(n, c.py.randint(1, n)), np.array([c.py.randrange(n)])):
        got = num(m.predict_proba(D.query(rows)))
        c.check(
            got.shape == P[rows].shape and bool(np.abs(got - P[rows]).max() <= tol),
            "answer-depends-on-other-rows",
            lambda got=got, rows=rows: f"{who}: rows {rows.tolist()} alone give {got[:2].tolist()} but {P[rows][:2].tolist()} among all",
        )
    again = num(m.predict_proba(D.query()))
    c.check(bool(np.array_equal(again, P)), "second-answer-differs", lambda: f"{who}: asking twice gave different probabilities")


def classic(c, mid):
    d = indm.describe(c, mid)
    if mid == "tri_training":
        d["nl"] = max(d["nl"], 18)
    D = indm.Data(d)
    m = indm.method(d)
    who = f"{mid} {d['base']} {d['back']} {d['spec']} labels {d['labels']} n=({d['nl']},{d['nu']})"
    data = D.dataset()
    before = snap(data)
    r = m.fit(data, device=indm.CPU, seed=d["seed"])
    c.check(r is m, "fit-returns-other", lambda: f"{who}: fit returned {type(r)}")
    unchanged(c, before, data, who, "fitting")
    P, y = outputs(c, d, D, m, who)
    per_row(c, d, D, m, P, who)
    if len(d["labels"]) == 2 and d["sep"] == 3.0 and mid != "co_training" and d["base"][0] not in ("random_forest", "gaussian_nb"):
        acc = float((y == D.yt).mean())
        c.check(acc >= 0.8, "cannot-learn", lambda: f"{who}: accuracy {acc} on two clusters nine deviations apart")
        c.count("separable_problems_learnt")
    c.nontrivial((mid, str(d["base"]), str(d["labels"]), str(d["spec"])))
    c.sample(dict(method=mid, base=d["base"], labels=d["labels"]))


def deep(c, mid):
    import torch

    d = indm.describe(c, mid)
    D = indm.Data(d)
    m = indm.method(d)
    modes = [c.chance(0.5) for _ in m._vf_bundles]
    for b, t in zip(m._vf_bundles, modes):
        b.model.train(t)
    grads = [[p.requires_grad for x in (b.model, b.ema_model) if x is not None for p in x.parameters()] for b in m._vf_bundles]
    who = f"{mid} {d['net']} {d['out']} {d['spec']} K={len(d['labels'])} n=({d['nl']},{d['nu']}) {'graph' if d['graph'] else 'rows'}"
    data = D.dataset()
    before = snap(data)
    r = m.fit(data, device=indm.CPU, seed=d["seed"])
    c.check(r is m, "fit-returns-other", lambda: f"{who}: fit returned {type(r)}")
    unchanged(c, before, data, who, "fitting")
    now = [[p.requires_grad for x in (b.model, b.ema_model) if x is not None for p in x.parameters()] for b in m._vf_bundles]
    c.check(now == grads, "weights-left-frozen", lambda: f"{who}: requires_grad changed over fit")
    for i, b in enumerate(m._vf_bundles):
        bad = [k for k, v in b.model.state_dict().items() if not torch.isfinite(v.double()).all()]
        c.check(not bad, "weights-not-finite", lambda i=i, bad=bad: f"{who}: bundle {i} has non-finite {bad}")
        b.model.train(c.chance(0.5))
    st = state(m)
    rng = torch.get_rng_state()
    P, _ = outputs(c, d, D, m, who)
    c.check(torch.equal(rng, torch.get_rng_state()), "prediction-draws-random-numbers", lambda: f"{who}: predicting advanced torch's generator")
    if not d["graph"]:
        per_row(c, d, D, m, P, who)
    k = same_state(st, state(m))
    c.check(k is None, "prediction-changes-the-model", lambda: f"{who}: predicting changed {k} of the trained networks")
    c.nontrivial((mid, d["net"], str(d["spec"]), len(d["labels"]), d["nl"], d["nu"]))
    c.sample(dict(method=mid, net=d["net"], options=d["spec"]))


for _mid in indm.CLASSIC + indm.DEEP:

    def _make(mid=_mid):
        def run(c):
            (classic if mid in indm.CLASSIC else deep)(c, mid)

        run.__name__ = mid
        return run

    M.scenario(quick=16, thorough=2500)(_make())


def plain(c, mid):
    d = indm.describe(c, mid)
    if mid in indm.DEEP:
        d.update(net="plain", graph=False, nl=6, nu=8)
    else:
        d.update(back="numpy", base=["knn", "numpy", {}], nu=8)
        if "max_iter" in d["spec"]:
            d["spec"]["max_iter"] = 3
    return d


def bad_data(d, ds):
    rep = dataclasses.replace
    y, X, mid = ds.y_l, ds.X_l, d["mid"]
    yield "fewer labels than rows", rep(ds, y_l=y[:-1])
    yield "labels as a column", rep(ds, y_l=y.reshape(-1, 1))
    yield "fractional labels", rep(ds, y_l=y.astype(float) if d["back"] == "numpy" else y.double())
    yield "no labelled rows", rep(ds, X_l=X[:0], y_l=y[:0])
    yield "no data", None
    if mid != "co_training":
        yield "flat rows", rep(ds, X_l=X[:, 0])
        for f in ("X_u", "X_u_w", "X_u_s"):
            v = getattr(ds, f)
            if v is not None and v.shape[1] > 1:
                yield f"{f} of another width", rep(ds, **{f: v[:, :1]})
    if mid in indm.DEEP:
        for f in ("X_u", "X_u_w", "X_u_s"):
            v = getattr(ds, f)
            if v is not None:
                yield f"empty {f}", rep(ds, **{f: v[:0]})
        if ds.X_u_w is not None:
            yield "one weak row short", rep(ds, X_u_w=ds.X_u_w[:-1])
            yield "one strong row short", rep(ds, X_u_s=ds.X_u_s[:-1])
            if mid != "simclr_v2":
                yield "no weak rows", rep(ds, X_u_w=None)
        yield "negative class", rep(ds, y_l=y - 1)
        yield "a class beyond the network's", rep(ds, y_l=y + 1)
        yield "short integer labels", rep(ds, y_l=y.int())
        yield "integer features", rep(ds, X_l=X.long())
    else:
        import torch

        yield "tensors for a numpy base", rep(ds, X_l=torch.as_tensor(X), y_l=torch.as_tensor(y), X_u=torch.as_tensor(ds.X_u))


BAD = dict(
    batch_size=[0, -1], max_epochs=[0, -1], temperature=[0.0, -1.0], p_cutoff=[1.5, -0.1], lambda_u=[-1.0], unsup_warm_up=[-0.1], model_bundle=[None], ema_decay=[1.5, -0.1], ema_p=[1.5, -0.1], queue_size=[-1], alpha=[1.5, -0.5],
    lambda_c=[-1.0], lambda_e=[-1.0], lambda_align=[-1.0], lambda_cot=[-1.0], t_proto=[0.0], t_dist=[0.0], n_sigma=[0.0], mixup_alpha=[-1.0], distill_temperature=[0.0], uda_threshold=[1.5], uda_temperature=[0.0], label_smoothing=[1.0, -0.1],
    mpl_ema=[1.5], tsa_schedule=["zz"], xi=[0.0], num_iters=[0], adv_eps=[-1.0], sigma0=[1.5], max_rounds=[0], classifier_id=["zz"], classifier_backend=["zz"], theta=[1.5], knn_k=[0], graph_type=["zz"], confidence_level=[1.5], n_learners=[0, 1],
)  # fmt: skip


@M.scenario(quick=56, thorough=840)
def refusals(c):
    mid = (indm.CLASSIC + indm.DEEP)[c.index % 28]
    d = plain(c, mid)
    good = indm.Data(d).dataset()

    def attempt(m, data, what):
        nets = [copy.deepcopy(b.model.state_dict()) for b in getattr(m, "_vf_bundles", [])]
        c.raises(REFUSALS, lambda: m.fit(data, device=indm.CPU, seed=1), "malformed-accepted", f"{mid} trained on {what}")
        # meta pseudo labels starts its teacher from the student before it looks at the options
        for b, old in list(zip(getattr(m, "_vf_bundles", []), nets))[1 if mid == "meta_pseudo_labels" else 0 :] if "class" not in what else ():  # classes are looked at batch by batch
            c.check(all((b.model.state_dict()[k] == v).all() for k, v in old.items()), "refused-but-trained", lambda: f"{mid}: weights moved although it refused {what}")
        c.count("refusals")

    for what, data in bad_data(d, good):
        attempt(indm.method(d), data, what)
    cls, Spec = indm.spec_class(mid)
    for name in {f.name for f in dataclasses.fields(Spec)} & set(BAD):
        for v in BAD[name]:
            m = indm.method(d)
            bad = cls(dataclasses.replace(m.spec, **{name: v}))
            if hasattr(m, "_vf_bundles"):
                bad._vf_bundles = m._vf_bundles
            attempt(bad, good, f"{name}={v!r}")
    for f in ("predict", "predict_proba"):
        m = indm.method(d)
        c.raises((RuntimeError,), lambda f=f, m=m: getattr(m, f)(indm.Data(d).query()), "unfitted-answers", f"{mid}.{f} before fit")
    m = indm.method(d)
    m.fit(good, device=indm.CPU, seed=1)
    if mid not in ("co_training", "democratic_co_learning"):
        q = indm.Data(d).Xt
        other = q if mid in indm.DEEP else __import__("torch").as_tensor(q)
        for f in ("predict", "predict_proba") if mid in indm.DEEP else ("predict_proba",):
            c.raises(REFUSALS, lambda f=f: getattr(m, f)(other), "wrong-container-accepted", f"{mid}.{f} of {type(other).__name__}")
    c.nontrivial(("refusals", mid, d["nl"]))
