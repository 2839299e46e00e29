"""Probe methods the benchmark runner can be configured with: they record what they are handed and predict by a
fixed rule of each row's bytes, the parameters and the seed, so the monitor can recompute every prediction."""
from __future__ import annotations

import hashlib
from contextlib import contextmanager
from dataclasses import dataclass, field
from typing import Any

import numpy as np
from modssc.inductive import registry as ireg
from modssc.inductive.base import MethodInfo as IInfo
from modssc.transductive import registry as treg
from modssc.transductive.base import MethodInfo as TInfo

LOG: list[dict[str, Any]] = []
FAIL = {"when": None}


def to_np(x):
    return x.detach().cpu().numpy() if hasattr(x, "detach") else np.asarray(x)


def deep_np(x):
    if x is None:
        return None
    if isinstance(x, dict):
        return {k: deep_np(v) for k, v in x.items()}
    if isinstance(x, (int, float, str, bool)):
        return x
    return np.array(to_np(x), copy=True)


def row_codes(x, k, salt):
    """One class position per row, a function of the row's values, the salt and the number of classes."""
    if isinstance(x, dict):
        x = x["x"]
    a = np.asarray(to_np(x), dtype=np.float64)
    if a.shape[0] == 0:
        return np.zeros(0, dtype=np.int64)
    a = a.reshape(a.shape[0], -1)
    out = np.empty(a.shape[0], dtype=np.int64)
    for i in range(a.shape[0]):
        h = hashlib.sha256(salt.encode() + np.round(a[i], 4).astype(np.float32).tobytes()).digest()
        out[i] = int.from_bytes(h[:6], "big") % k
    return out


def salt_of(spec, seed):
    return f"{spec.a!r}|{spec.b!r}|{sorted(spec.extra.items())!r}|{int(seed)}"


@dataclass(frozen=True)
class ProbeSpec:
    a: Any = 1
    b: Any = 0.5
    backend: str = "numpy"
    batch_size: int = 1000
    sup_batch_size: int = 1000
    extra: dict = field(default_factory=dict)
    classifier_params: dict = field(default_factory=dict)
    fail: str | None = None
    follow: bool = False


class Probe:
    info = IInfo(method_id="vf_probe", name="probe", supports_gpu=False)

    def __init__(self, spec=None):
        self.spec = spec or ProbeSpec()

    def fit(self, data, *, device, seed=0):
        if self.spec.fail == "fit" or (FAIL["when"] and FAIL["when"](self.spec, seed)):
            raise RuntimeError("probe told to fail")
        y = deep_np(data.y_l)
        self.rec = {
            "ev": "fit", "spec": self.spec, "seed": seed, "device": device, "X_l": deep_np(data.X_l), "y_l": y,
            "X_u": deep_np(data.X_u), "X_u_w": deep_np(data.X_u_w), "X_u_s": deep_np(data.X_u_s), "views": deep_np(data.views),
            "meta": deep_np(dict(data.meta or {})), "torch": hasattr(data.X_l["x"] if isinstance(data.X_l, dict) else data.X_l, "detach"),
            "torch_u": [hasattr(v["x"] if isinstance(v, dict) else v, "detach") for v in (data.X_u, data.X_u_w, data.X_u_s) if v is not None],
        }
        LOG.append(self.rec)
        if self.rec["torch"]:  # like the library's own methods: the backend it was fitted on, and fitted tensors
            self._backend = "torch"
            self._state = {"x": data.X_l["x"] if isinstance(data.X_l, dict) else data.X_l}
        self.salt = salt_of(self.spec, seed)
        self.classes = np.unique(y.argmax(1) if y.ndim == 2 else y)
        return self

    def _codes(self, X):
        return row_codes(X, len(self.classes), self.salt)

    def predict_proba(self, X):
        if self.spec.fail == "predict":
            raise RuntimeError("probe told to fail at prediction")
        X = getattr(X, "X_l", X)
        LOG.append({"ev": "predict", "X": deep_np(X)})
        c = self._codes(X)
        return 0.1 * np.ones((len(c), len(self.classes))) + np.eye(len(self.classes))[c] * 0.5

    def predict(self, X):
        return self.classes[self.predict_proba(X).argmax(1)]


class TProbe:
    info = TInfo(method_id="vf_tprobe", name="probe", supports_gpu=False)

    def __init__(self, spec=None):
        self.spec = spec or ProbeSpec()

    def fit(self, data, *, device=None, seed=0):
        if self.spec.fail == "fit" or (FAIL["when"] and FAIL["when"](self.spec, seed)):
            raise RuntimeError("probe told to fail")
        g = data.graph
        LOG.append({
            "ev": "fit", "spec": self.spec, "seed": seed, "device": device, "X": deep_np(data.X), "y": deep_np(data.y),
            "masks": {k: np.array(to_np(v), copy=True) for k, v in data.masks.items()}, "n_nodes": g.n_nodes,
            "edge_index": deep_np(g.edge_index), "edge_weight": deep_np(g.edge_weight),
        })
        self.salt = salt_of(self.spec, seed)
        y = to_np(data.y)
        self.k = int(y[np.asarray(to_np(data.masks["train_mask"]), bool)].max()) + 1
        return self

    def predict_proba(self, data):
        if self.spec.fail == "predict":
            raise RuntimeError("probe told to fail at prediction")
        c = row_codes(data.X, self.k, self.salt)
        LOG.append({"ev": "predict", "X": deep_np(data.X)})
        return 0.1 * np.ones((len(c), self.k)) + np.eye(self.k)[c] * 0.5


@contextmanager
def registered():
    ireg.register_method("vf_probe", "vf.benchprobe:Probe", status="implemented")
    treg.register_method("vf_tprobe", "vf.benchprobe:TProbe", status="implemented")
    LOG.clear()
    FAIL["when"] = None
    try:
        yield LOG
    finally:
        ireg._REGISTRY.pop("vf_probe", None)
        treg._REGISTRY.pop("vf_tprobe", None)
        FAIL["when"] = None
