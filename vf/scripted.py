"""A base classifier whose scores are a known pseudo-random function of what it was trained on.

Column 0 of the inputs is a row identity and column 1 the label the row leans towards.  The
scores of a row depend on the seed, on the set of (row, label) pairs the classifier was last
fitted on (not on their order) and on the row: an independent model of a self-labelling loop
can therefore recompute them, and two loops end with the same training set only if they made
the same choices all along.
"""
from __future__ import annotations

import hashlib

import numpy as np

SHARP = 3.0


def _h(*parts) -> float:
    d = hashlib.blake2b(repr(parts).encode(), digest_size=7).digest()
    return (int.from_bytes(d, "little") + 1) / (2**56 + 2)


def fingerprint(ids, labels) -> str:
    pairs = sorted((int(i), int(v)) for i, v in zip(ids, labels))
    return hashlib.blake2b(repr(pairs).encode(), digest_size=8).hexdigest()


def scores(seed, fp, classes, ids, hints, sharp=SHARP, lean=1.5):
    """float32 class probabilities, one row per id."""
    out = np.zeros((len(ids), len(classes)))
    for r, (i, h) in enumerate(zip(ids, hints)):
        for j, v in enumerate(classes):
            u = _h(seed, fp, int(i), int(v)) + (lean * _h("lean", seed, fp, int(i)) if int(h) == int(v) else 0.0)
            out[r, j] = u**sharp
    return (out / np.maximum(out.sum(axis=1, keepdims=True), 1e-300)).astype(np.float32)


class ScriptedNumpy:
    classifier_id, backend, supports_proba = "vf_scripted", "numpy", True

    def __init__(self, *, seed=0, n_jobs=None, sharp=SHARP, lean=1.5):
        self.seed, self.n_jobs, self.sharp, self.lean = seed, n_jobs, sharp, lean
        self.fits = []

    def _np(self, a):
        return a.detach().cpu().numpy() if hasattr(a, "detach") else np.asarray(a)

    def fit(self, X, y):
        X, y = self._np(X), self._np(y).reshape(-1)
        assert len(X) == len(y), "scripted classifier fitted on misaligned rows"
        self.classes_ = np.unique(y)
        self.train = [(int(i), int(v)) for i, v in zip(X[:, 0], y)]
        self.fp = fingerprint(X[:, 0], y)
        self.fits.append(len(y))

    def _scores(self, X):
        X = self._np(X)
        return scores(self.seed, self.fp, self.classes_, X[:, 0], X[:, 1], self.sharp, self.lean)

    def predict_scores(self, X):
        return self._scores(X)

    predict_proba = predict_scores

    def predict(self, X):
        return self.classes_[self._scores(X).argmax(axis=1)]


class ScriptedTorch(ScriptedNumpy):
    backend = "torch"

    @property
    def classes_t_(self):
        import torch

        return torch.as_tensor(self.classes_)

    def predict_scores(self, X):
        import torch

        return torch.as_tensor(self._scores(X))

    predict_proba = predict_scores

    def predict(self, X):
        import torch

        return torch.as_tensor(self.classes_[self._scores(X).argmax(axis=1)])


def install():
    from modssc.supervised import registry

    registry.ensure_bootstrap()
    if "vf_scripted" in registry.list_classifiers():
        return
    registry.register_classifier(key="vf_scripted", description="scripted", preferred_backends=("numpy",))
    registry.register_backend(classifier_id="vf_scripted", backend="numpy", factory="vf.scripted:ScriptedNumpy")
    registry.register_backend(classifier_id="vf_scripted", backend="torch", factory="vf.scripted:ScriptedTorch")
