"""Real fits of every inductive method from a plain description (so that another process can repeat one exactly)."""

import copy
import dataclasses
import importlib
import random

import numpy as np

from modssc.inductive.registry import get_method_class
from modssc.inductive.types import DeviceSpec, InductiveDataset

CPU = DeviceSpec(device="cpu")
CLASSIC = ["supervised", "pseudo_label", "self_training", "setred", "co_training", "tri_training", "democratic_co_learning", "s4vm"]
DEEP = [
    "pi_model", "fixmatch", "comatch", "defixmatch", "daso", "adsh", "flexmatch", "adamatch", "free_match", "softmatch", "mixmatch", "simclr_v2", "mean_teacher", "meta_pseudo_labels",
    "temporal_ensembling", "uda", "vat", "noisy_student", "deep_co_training", "trinet",
]  # fmt: skip
LABELS = [[0, 1], [0, 1, 2], [2, 5], [-3, 0, 7], [10, 11, 12, 13]]
BASES = {
    "numpy": [("knn", "numpy", {"k": 3}), ("knn", "sklearn", {"k": 3}), ("logreg", "sklearn", {}), ("ridge", "sklearn", {}), ("linear_svm", "sklearn", {}), ("svm_rbf", "sklearn", {}), ("svm_rbf", "sklearn", {"probability": True}),
              ("gaussian_nb", "sklearn", {}), ("random_forest", "sklearn", {"n_estimators": 5})],
    "torch": [("knn", "torch", {"k": 3}), ("logreg", "torch", {"max_epochs": 15, "batch_size": 4, "lr": 0.1}), ("mlp", "torch", {"hidden_sizes": [5], "max_epochs": 15, "batch_size": 4, "lr": 0.05})],
}  # fmt: skip


def spec_class(mid):
    cls = get_method_class(mid)
    mod = importlib.import_module(cls.__module__)
    return cls, next(v for n, v in vars(mod).items() if n.lower() == mid.replace("_", "") + "spec")


# ---------------------------------------------------------------- descriptions
def describe(c, mid, **force):
    deep = mid in DEEP
    d = dict(mid=mid, seed=c.py.randrange(10**6), data_seed=c.py.randrange(10**6), sep=c.pick([1.0, 3.0]), dim=c.py.randint(2, 5))
    if deep:
        k = c.py.randint(2, 4)
        d.update(labels=list(range(k)), back="torch", dtype=c.pick(["float64", "float32"]), nl=c.py.randint(2, 9), nu=c.py.randint(2, 14), net=c.pick(["plain", "bn", "bn"]), out=c.pick(["tensor", "dict", "tuple"]), graph=c.chance(0.25))
        if mid == "comatch":
            d["out"] = c.pick(["dict", "tuple"])
        d["opt"] = c.pick(["sgd", "adam"])
        b = c.py.randint(2, 7)
        d["spec"] = dict(batch_size=b, **deep_options(c, mid))
        careful = mid in ("mean_teacher", "mixmatch", "noisy_student", "pi_model", "temporal_ensembling", "vat")
        if not careful and (mid == "trinet" or 1 in (d["nl"] % b, d["nu"] % b)):
            d["net"] = "plain"  # torch itself refuses batch normalisation over one row
    else:
        labels = c.pick([[0, 1], [2, 5]] if mid == "s4vm" else LABELS)
        back = c.pick(["numpy", "numpy", "torch"])
        base = list(c.pick(BASES[back]))
        if mid in ("setred",) and base[0] in ("ridge", "linear_svm"):
            base = ["logreg", "sklearn", {}]
        d.update(labels=labels, back=back, base=base, dtype=c.pick(["float64", "float32"]), nl=len(labels) * c.py.randint(3, 6), nu=c.py.randint(0 if mid in ("supervised", "pseudo_label", "self_training") else 4, 24))
        d["spec"] = classic_options(c, mid)
    d.update(force)
    return d


def classic_options(c, mid):
    o = {}
    if mid in ("pseudo_label", "self_training", "setred", "co_training", "tri_training", "democratic_co_learning"):
        o["max_iter"] = c.py.randint(0, 5)
    if mid in ("pseudo_label", "self_training"):
        o["confidence_threshold"] = c.pick([0.0, 0.5, 0.8])
        o["max_new_labels"] = c.pick([None, 1, 3])
    if mid == "setred":
        o["theta"] = c.pick([0.05, 0.5])
        o["graph_type"] = c.pick(["rng", "knn"])
        o["knn_k"] = c.py.randint(1, 5)
    if mid == "co_training":
        o["k_per_class"] = c.py.randint(1, 3)
    return o


def deep_options(c, mid):
    if mid == "trinet":
        return dict(max_rounds=c.py.randint(1, 3), sigma0=c.pick([0.5, 0.7]), pool_base=c.pick([2, 5, 1000]), init_epochs=1, train_epochs=1, des_passes=c.pick([1, 3]), fine_tune_interval=c.pick([0, 2]), freeze_bn=c.chance(0.5))
    if mid == "simclr_v2":
        return dict(pretrain_epochs=c.py.randint(0, 2), finetune_epochs=c.py.randint(1, 2), distill_epochs=c.py.randint(0, 2), freeze_bn=c.chance(0.5))
    o = dict(max_epochs=c.py.randint(1, 3))
    names = {f.name for f in dataclasses.fields(spec_class(mid)[1])}
    if "p_cutoff" in names:
        o["p_cutoff"] = c.pick([0.4, 0.6, 0.95])
    for b in ("use_cat", "hard_label", "detach_target", "freeze_bn"):
        if b in names:
            o[b] = c.chance(0.5)
    if "ema_p" in names:
        o["ema_p"] = c.pick([0.5, 0.9, 0.999])
    if "unsup_warm_up" in names:
        o["unsup_warm_up"] = c.pick([0.0, 0.4])
    if mid == "daso":
        o.update(pretrain_steps=c.pick([0, 1, 5000]), queue_size=c.pick([2, 16]), dist_update_period=c.pick([1, 3]))
    if mid == "comatch":
        o.update(queue_size=c.pick([0, 5, 64]), da_len=c.pick([1, 4]))
    if mid == "adsh":
        o["score_warmup_epochs"] = c.pick([0, 1])
    if mid == "deep_co_training":
        o["adv_eps"] = c.pick([0.0, 0.05])
    return o


# ---------------------------------------------------------------- data and models
class Data:
    def __init__(self, d, salt=0):
        rng = np.random.default_rng(d["data_seed"] + 7919 * salt)
        k = len(d["labels"])
        cent = np.zeros((k, d["dim"]))
        for i in range(k):
            cent[i, i % d["dim"]] = (1 + i // d["dim"]) * (1 if i % 2 == 0 else -1)
        cent = cent * d["sep"] * 3

        def draw(n):
            y = np.array((list(range(k)) * (n // k + 1))[:n], dtype=int)
            rng.shuffle(y)
            return cent[y] + rng.normal(size=(n, d["dim"])), np.asarray(d["labels"])[y] if n else np.zeros(0, int)

        self.Xl, self.yl = draw(d["nl"])
        self.yl = np.asarray(self.yl)
        for i, v in enumerate(d["labels"][: d["nl"]]):
            self.Xl[i], self.yl[i] = cent[i] + rng.normal(size=d["dim"]), v
        self.Xu, self.yu = draw(d["nu"])
        self.Xt, self.yt = draw(17)
        self.noise = [rng.normal(size=self.Xu.shape) * s for s in (0.1, 0.4, 0.5)] + [rng.normal(size=self.Xl.shape) * 0.4]
        self.d = d
        self.rng = rng
        self.edges = {n: rng.integers(0, n, (2, 2 * n)) for n in {len(self.Xl), len(self.Xu), len(self.Xt)} if n}
        self.weights = {n: rng.choice([0.5, 1.0, 2.0], 2 * n) for n in self.edges}

    def arr(self, a):
        a = np.ascontiguousarray(a, dtype=self.d["dtype"])
        if self.d["back"] == "numpy":
            return a
        import torch

        t = torch.as_tensor(a.copy())
        if self.d.get("graph"):
            n = len(a)
            return {"x": t, "edge_index": torch.as_tensor(self.edges[n]), "edge_weight": torch.as_tensor(self.weights[n].astype(self.d["dtype"]))}
        return t

    def lab(self, y):
        if self.d["back"] == "numpy":
            return np.asarray(y, dtype=np.int64)
        import torch

        return torch.as_tensor(np.asarray(y, dtype=np.int64))

    def halves(self, a):
        h = max(1, self.d["dim"] // 2)
        return a[:, :h], a[:, h:]

    def dataset(self):
        mid, A = self.d["mid"], self.arr
        n = self.noise
        if mid == "co_training":
            l1, l2 = self.halves(self.Xl)
            u1, u2 = self.halves(self.Xu)
            return InductiveDataset(X_l=A(self.Xl), y_l=self.lab(self.yl), X_u=A(self.Xu), views={"a": {"X_l": A(l1), "X_u": A(u1)}, "b": {"X_l": A(l2), "X_u": A(u2)}})
        if mid in CLASSIC:
            return InductiveDataset(X_l=A(self.Xl), y_l=self.lab(self.yl), X_u=A(self.Xu) if len(self.Xu) else None)
        kw = {}
        if mid in ("vat", "deep_co_training", "trinet"):
            kw["X_u"] = A(self.Xu)
        else:
            kw.update(X_u_w=A(self.Xu + n[0]), X_u_s=A(self.Xu + n[1]))
        if mid == "comatch":
            kw["views"] = {"X_u_s1": A(self.Xu + n[2])}
        if mid in ("defixmatch",):
            kw["views"] = {"X_l_s": A(self.Xl + n[3])}
        if mid == "flexmatch":
            import torch

            kw["meta"] = {"idx_u": torch.arange(len(self.Xu)), "ulb_size": len(self.Xu)}
        return InductiveDataset(X_l=A(self.Xl), y_l=self.lab(self.yl), **kw)

    def query(self, rows=None):
        X, y = (self.Xt, self.yt) if rows is None else (self.Xt[rows], self.yt[rows])
        if self.d["mid"] == "co_training":
            a, b = self.halves(X)
            return InductiveDataset(X_l=self.arr(X), y_l=self.lab(y), views={"a": self.arr(a), "b": self.arr(b)})
        return self.arr(X)


def make_net(d, salt, kind="full"):
    import torch

    from vf.deeptape import mixed

    g = torch.Generator().manual_seed(d["seed"] + salt)
    dt = getattr(torch, d["dtype"])
    h, k = 6, len(d["labels"])

    class Net(torch.nn.Module):
        def __init__(self):
            super().__init__()
            if kind != "head":
                self.a = torch.nn.Linear(d["dim"], h, dtype=dt)
                self.n = torch.nn.BatchNorm1d(h, dtype=dt) if d["net"] == "bn" else torch.nn.Identity()
            if kind != "body":
                self.b = torch.nn.Linear(h, k, dtype=dt)
            with torch.no_grad():
                for m in self.children():
                    if isinstance(m, torch.nn.Linear):
                        for p in m.parameters():
                            p.copy_(torch.randn(p.shape, generator=g, dtype=torch.float64).to(dt))

        def forward(self, x):
            f = x if kind == "head" else torch.tanh(self.n(self.a(mixed(x))))
            if kind == "body":
                return f
            y = self.b(f)
            if kind == "head":
                return y
            return {"tensor": y, "dict": {"logits": y, "feat": f}, "tuple": (y, f)}[d["out"]]

    return Net()


def make_bundle(d, salt=0, kind="full", ema=False):
    import torch

    from modssc.inductive.deep import TorchModelBundle

    net = make_net(d, salt, kind)
    e = None
    if ema:
        e = copy.deepcopy(net)
        for p in e.parameters():
            p.requires_grad_(False)
    opt = torch.optim.SGD(net.parameters(), lr=0.05) if d["opt"] == "sgd" else torch.optim.Adam(net.parameters(), lr=0.02)
    return TorchModelBundle(model=net, optimizer=opt, ema_model=e)


def bundles(d):
    mid = d["mid"]
    if mid == "meta_pseudo_labels":
        return dict(teacher_bundle=make_bundle(d, 0), student_bundle=make_bundle(d, 1))
    if mid == "deep_co_training":
        return dict(model_bundle_1=make_bundle(d, 0), model_bundle_2=make_bundle(d, 1))
    if mid == "simclr_v2":
        return dict(pretrain_bundle=make_bundle(d, 0), finetune_bundle=make_bundle(d, 1), student_bundle=make_bundle(d, 2))
    if mid == "trinet":
        return dict(shared_bundle=make_bundle(d, 0, "body"), head_bundles=tuple(make_bundle(d, 1 + i, "head") for i in range(3)))
    return dict(model_bundle=make_bundle(d, 0, ema=mid in ("mean_teacher", "daso")))


def method(d):
    cls, Spec = spec_class(d["mid"])
    if d["mid"] in DEEP:
        b = bundles(d)
        m = cls(Spec(**b, **d["spec"]))
        m._vf_bundles = [x for v in b.values() for x in (v if isinstance(v, tuple) else (v,))]
        return m
    cid, cb, cp = d["base"]
    return cls(Spec(classifier_id=cid, classifier_backend=cb, classifier_params=dict(cp), **d["spec"]))


def stir(n):
    """Disturb every process-wide generator."""
    import torch

    np.random.seed(n)
    random.seed(n)
    torch.manual_seed(n)
    torch.rand(n % 5)


def rewind(m, d):
    """Give the same method object fresh weights and optimisers, as a caller starting over would."""
    fresh = [x for v in bundles(d).values() for x in (v if isinstance(v, tuple) else (v,))]
    for old, new in zip(m._vf_bundles, fresh):
        old.model.load_state_dict(new.model.state_dict())
        old.optimizer.load_state_dict(new.optimizer.state_dict())
        if old.ema_model is not None:
            old.ema_model.load_state_dict(new.ema_model.state_dict())


def to_list(a):
    return np.asarray(a.detach().cpu().numpy() if hasattr(a, "detach") else a).tolist()


def run(d, *, stir_with=None, history=0, seed=None, between=False):
    """Fit and predict; returns the probabilities and labels as plain lists."""
    m = method(d)
    for h in range(history):
        other = Data(d, salt=h + 1)
        m.fit(other.dataset(), device=CPU, seed=d["seed"] + h)
        m.predict(other.query())
        if d["mid"] in DEEP:
            rewind(m, d)
    if stir_with is not None:
        stir(stir_with)
    D = Data(d)
    m.fit(D.dataset(), device=CPU, seed=d["seed"] if seed is None else seed)
    if stir_with is not None:
        stir(stir_with + 1)
    if between:
        method(d).fit(Data(d, salt=9).dataset(), device=CPU, seed=5)
    p = m.predict_proba(D.query())
    return dict(p=to_list(p), y=to_list(m.predict(D.query())))


def run_or_refuse(d, **kw):
    """run(), with a base classifier's refusal of one-class training rows (a bootstrap may draw them) as an outcome of its own."""
    try:
        return run(d, **kw)
    except ValueError as e:
        if "number of classes has to be greater than one" not in str(e):
            raise
        return dict(p=[], y=[], refused=str(e))


def remote(payload):
    return run_or_refuse(payload["d"], stir_with=payload["stir"])
