"""Workloads for the supervised classifiers: random small datasets and parameter sets per (id, backend)."""
from __future__ import annotations

import numpy as np

SK = ["knn", "logreg", "linear_svm", "ridge", "svm_rbf", "gaussian_nb", "multinomial_nb", "bernoulli_nb", "random_forest", "extra_trees", "gradient_boosting"]
NN = ["logreg", "mlp", "image_cnn", "audio_cnn", "text_cnn", "lstm_scratch", "audio_cnn_scratch"]
ALL = [(i, "sklearn") for i in SK] + [("knn", "numpy"), ("knn", "torch")] + [(i, "torch") for i in NN] + [("graphsage_inductive", "torch"), ("image_pretrained", "torch")]
DECISION = {"linear_svm", "ridge", "svm_rbf"}


def params(c, cid, backend):
    """Random parameters away from the defaults."""
    py = c.py
    p = {}
    if cid == "knn":
        p = dict(k=py.choice([1, 2, 3, 5, 7]), metric=c.pick(["euclidean", "cosine"]), weights=c.pick(["uniform", "distance"]))
        if backend != "sklearn":
            p["batch_size"] = py.choice([1, 3, 1024])
    elif cid == "logreg" and backend == "sklearn":
        p = dict(C=10 ** py.uniform(-2, 2), solver=c.pick(["lbfgs", "saga", "newton-cg"]), max_iter=py.choice([50, 200]))
    elif cid == "linear_svm":
        p = dict(C=10 ** py.uniform(-2, 1), max_iter=py.choice([20, 500]), loss=c.pick(["hinge", "squared_hinge"]), class_weight=c.pick([None, "balanced"]))
    elif cid == "ridge":
        p = dict(alpha=10 ** py.uniform(-2, 2), solver=c.pick(["auto", "svd", "cholesky", "sag"]), class_weight=c.pick([None, "balanced"]))
    elif cid == "svm_rbf":
        p = dict(C=10 ** py.uniform(-1, 2), probability=c.chance(0.4))
        p.update(c.pick([{}, {"gamma": "auto"}, {"gamma": 10 ** py.uniform(-2, 1)}, {"sigma": 10 ** py.uniform(-0.5, 1)}]))
    elif cid == "gaussian_nb":
        p = dict(var_smoothing=10 ** py.uniform(-9, -1))
    elif cid in ("multinomial_nb", "bernoulli_nb"):
        p = dict(alpha=10 ** py.uniform(-2, 1), fit_prior=c.chance(0.5))
        if cid == "bernoulli_nb":
            p["binarize"] = c.pick([0.0, 0.4])
    elif cid in ("random_forest", "extra_trees"):
        p = dict(n_estimators=py.randint(2, 8), max_depth=c.pick([None, 1, 3]), max_features=c.pick(["sqrt", None, 1]), min_samples_split=py.choice([2, 5]), min_samples_leaf=py.choice([1, 3]),
                 bootstrap=c.chance(0.5), class_weight=c.pick([None, "balanced"]))
    elif cid == "gradient_boosting":
        p = dict(n_estimators=py.randint(2, 6), learning_rate=py.uniform(0.05, 0.5), max_depth=py.randint(1, 3), subsample=c.pick([1.0, 0.7]), max_features=c.pick([None, 1]))
    else:  # torch networks
        p = dict(lr=10 ** py.uniform(-3, -1.5), weight_decay=c.pick([0.0, 0.05]), batch_size=py.choice([2, 5, 64]), max_epochs=py.randint(1, 3))
        if cid != "logreg":
            p["dropout"] = c.pick([0.0, 0.3])
        if cid in ("mlp", "image_cnn", "audio_cnn", "text_cnn", "graphsage_inductive"):
            p["activation"] = c.pick(["relu", "gelu", "tanh"])
        if cid == "mlp":
            p["hidden_sizes"] = c.pick([(4,), (5, 3), 6, None, [3, 3, 2]])
        if cid in ("image_cnn", "audio_cnn"):
            p.update(conv_channels=c.pick([(3,), (4, 2)]), kernel_size=c.pick([1, 3, 2]), fc_dim=c.pick([0, 4]))
        if cid == "text_cnn":
            p.update(kernel_sizes=c.pick([(1,), (2, 3), (3, 50)]), num_filters=3)
        if cid == "lstm_scratch":
            p.update(vocab_size=12, embedding_dim=3, hidden_dim=4, num_layers=c.pick([1, 2]))
        if cid == "audio_cnn_scratch":
            p.update(base_channels=2, num_blocks=c.pick([1, 2]), batch_size=64)
        if cid == "graphsage_inductive":
            p.pop("batch_size")
            p.update(c.pick([{"hidden_channels": 4}, {"hidden_sizes": [5, 3]}, {"hidden_channels": 3, "num_layers": 3}]))
        if cid == "image_pretrained":
            p.pop("dropout")
            p.update(model_name=tiny_model(), weights=None, freeze_backbone=c.chance(0.5))
    return p


def tiny_model():
    """A small torchvision-registered network with batch norm and an fc head."""
    import torch
    import torchvision.models as tvm

    if "vf_tiny" not in tvm.list_models():

        class Tiny(torch.nn.Module):
            def __init__(self):
                super().__init__()
                self.conv = torch.nn.Conv2d(3, 4, 3, padding=1)
                self.bn = torch.nn.BatchNorm2d(4)
                self.fc = torch.nn.Linear(4, 10)

            def forward(self, x):
                return self.fc(torch.relu(self.bn(self.conv(x))).mean(dim=(2, 3)))

        def vf_tiny(*, weights=None, **kw):
            return Tiny()

        tvm._api.register_model("vf_tiny")(vf_tiny)
    return "vf_tiny"


def features(c, cid, backend, n, y_enc, shape=None):
    """n rows of inputs for the classifier, weakly informative about y_enc; returns (X, shape)."""
    rng = c.rng
    if cid in ("image_cnn", "image_pretrained"):
        shape = shape or c.pick([(1, 4, 5), (3, 4, 4)])
    elif cid == "audio_cnn":
        shape = shape or c.pick([(1, 9), (2, 8)])
    elif cid == "text_cnn":
        shape = shape or c.pick([(6, 3), (4, 2)])
    elif cid == "audio_cnn_scratch":
        shape = shape or c.pick([(8, 9), (1, 8, 8)])
    elif cid == "lstm_scratch":
        shape = shape or (c.py.randint(2, 6),)
    else:
        shape = shape or (c.py.randint(2, 6),)
    if cid == "lstm_scratch":
        X = rng.integers(0, 12, (n, *shape))
        X[:, 0] = (y_enc * 3 + 1) % 12
        return X, shape
    X = rng.normal(size=(n, *shape)).astype(np.float32)
    X.reshape(n, -1)[np.arange(n), np.asarray(y_enc) % X.reshape(n, -1).shape[1]] += 1.5
    if cid == "multinomial_nb":
        X = np.abs(X)
    return X, shape


def wrap(X, cid, backend, c=None):
    """Convert to the container the backend wants."""
    if backend == "torch":
        import torch

        if cid == "graphsage_inductive":
            return {"x": torch.as_tensor(X["x"]), "edge_index": torch.as_tensor(X["edge_index"])}
        return torch.as_tensor(X)
    return X


def labels_for(c, cid, backend, n, k):
    """(y in original labels, codes); every code 0..k-1 present."""
    codes = np.concatenate([np.arange(k), c.rng.integers(0, k, n - k)])
    c.rng.shuffle(codes)
    if cid == "graphsage_inductive":
        return codes.copy(), codes, "int"
    kinds = ["int", "gap", "neg"] if backend == "torch" else ["int", "gap", "neg", "str", "float", "strlen"]
    kind = c.pick(kinds)
    if kind == "int":
        names = np.arange(k)
    elif kind == "gap":
        names = np.sort(c.rng.choice(60, k, replace=False))
    elif kind == "neg":
        names = np.sort(c.rng.choice(np.arange(-9, 9), k, replace=False))
    elif kind == "str":
        names = np.sort(np.array([f"c{v}" for v in c.rng.choice(200, k, replace=False)]))
    elif kind == "strlen":
        names = np.sort(np.array(["b" * (i + 1) if i % 2 else "a" * (i + 1) for i in range(k)]))
    else:
        names = np.sort(c.rng.choice(40, k, replace=False) / 4.0 - 3)
    return names[codes], codes, kind


def to_np(a):
    return a.detach().cpu().numpy() if hasattr(a, "detach") else np.asarray(a)
