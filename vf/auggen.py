"""Inputs and plans for the augmentation monitors."""
import numpy as np
from modssc.data_augmentation.api import build_pipeline, build_strategy
from modssc.data_augmentation.plan import AugmentationPlan, StepConfig
from modssc.data_augmentation.types import AugmentationContext
from modssc.data_augmentation.types import GraphSample

OPS = {
    "vision": ["vision.random_horizontal_flip", "vision.gaussian_noise", "vision.cutout", "vision.random_crop_pad"],
    "tabular": ["tabular.gaussian_noise", "tabular.feature_dropout", "tabular.swap_noise"],
    "audio": ["audio.add_noise", "audio.time_shift"],
    "text": ["text.lowercase", "text.word_dropout", "text.random_swap"],
    "tokens": ["text.token_mask", "text.token_swap"],
    "graph": ["graph.edge_dropout", "graph.feature_mask"],
}
RANDOM = {o for v in OPS.values() for o in v} - {"text.lowercase"}
WORDS = ["a", "Bee", "cat", "Dog", "été", "fox", "go", "Hat", "ink", "jam", "K2", "lot"]


class Attr:
    """Graph object with attributes, in the style of torch-geometric's Data."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def params(c, op):
    p = c.pick([0.1, 0.3, 0.5, 0.8])
    return {
        "vision.random_horizontal_flip": lambda: {"p": p},
        "vision.gaussian_noise": lambda: {"std": c.pick([0.05, 1.0])},
        "vision.cutout": lambda: c.pick([{"frac": 0.5}, {"length": 3, "n_holes": 2}, {"length": 2, "fill": -9.0}]),
        "vision.random_crop_pad": lambda: c.pick([{"pad": 2}, {"padding": 3}]),
        "tabular.gaussian_noise": lambda: {"std": c.pick([0.1, 2.0])},
        "tabular.feature_dropout": lambda: {"p": p},
        "tabular.swap_noise": lambda: {"p": p},
        "audio.add_noise": lambda: {"std": c.pick([0.005, 0.5])},
        "audio.time_shift": lambda: {"max_frac": c.pick([0.1, 0.5, 1.0])},
        "core.identity": lambda: {},
        "core.ensure_float32": lambda: {},
        "text.lowercase": lambda: {},
        "text.word_dropout": lambda: {"p": p},
        "text.random_swap": lambda: {"n_swaps": c.py.randint(1, 4)},
        "text.token_mask": lambda: {"p": p, "mask_token_id": c.pick([1, 99])},
        "text.token_swap": lambda: {"n_swaps": c.py.randint(1, 4)},
        "graph.edge_dropout": lambda: {"p": p},
        "graph.feature_mask": lambda: {"p": p},
    }[op]()


def torch_():
    import torch

    return torch


def image(c, backend, size=None):
    h, w = size or (c.py.randint(5, 12), c.py.randint(5, 12))
    ch = c.pick([1, 3, 4])
    lay = c.pick(["hw", "hwc", "chw"])
    shape = {"hw": (h, w), "hwc": (h, w, ch), "chw": (ch, h, w)}[lay]
    a = c.rng.normal(size=shape).astype(c.pick(["float32", "float64"]))
    return (torch_().as_tensor(a) if backend == "torch" else a), lay


def words(c, n=None):
    return " ".join(c.pick(WORDS) for _ in range(c.py.randint(3, 12) if n is None else n))


def graph(c, backend, form=None):
    n, e = c.py.randint(4, 12), c.py.randint(8, 40)
    x = c.rng.normal(size=(n, c.py.randint(2, 5))).astype("float32")
    pairs = c.rng.permutation(n * n)[: min(e, n * n)]
    ei = np.stack([pairs // n, pairs % n]).astype("int64")
    ew = None if c.chance(0.3) else (ei[0] * n + ei[1] + 1).astype("float32")
    form = form or c.pick(["dict", "sample", "attr"])
    if c.chance(0.3) and ei.shape[1] != 2:
        ei = np.ascontiguousarray(ei.T)
    if backend == "torch":
        t = torch_()
        x, ei, ew = t.as_tensor(x), t.as_tensor(ei), None if ew is None else t.as_tensor(ew)
    if form == "dict":
        g = {"x": x, "edge_index": ei, "other": "kept"}
        if ew is not None:
            g["edge_weight"] = ew
        return g
    if form == "sample":
        return GraphSample(x=x, edge_index=ei, edge_weight=ew, meta={"other": "kept"})
    g = Attr(x=x, edge_index=ei, other="kept")
    if ew is not None:
        g.edge_weight = ew
    return g


def make_input(c, kind, backend):
    if kind == "vision":
        return image(c, backend)[0]
    if kind == "tabular":
        a = c.rng.normal(size=c.pick([(9,), (4, 6), (1, 12)])).astype(c.pick(["float32", "float64"]))
    elif kind == "audio":
        a = c.rng.normal(size=c.pick([(40,), (2, 33)])).astype("float32")
    elif kind == "tokens":
        a = c.rng.integers(0, 40, size=c.pick([(12,), (3, 10)]))
    elif kind == "text":
        return words(c) if c.chance(0.5) else [words(c) for _ in range(c.py.randint(1, 4))]
    else:
        return graph(c, backend)
    return torch_().as_tensor(a) if backend == "torch" else a


def plain(x):
    """A deep, comparable snapshot of any input or output."""
    if isinstance(x, GraphSample):
        return {"x": plain(x.x), "edge_index": plain(x.edge_index), "edge_weight": plain(x.edge_weight), "meta": dict(x.meta)}
    if isinstance(x, Attr):
        return {"@attr": {k: plain(v) for k, v in sorted(x.__dict__.items())}}
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if type(x).__module__.startswith("torch"):
        return ["torch", str(x.dtype), list(x.shape), x.detach().numpy().tobytes().hex()]
    if isinstance(x, np.ndarray):
        return ["numpy", str(x.dtype), list(x.shape), np.ascontiguousarray(x).tobytes().hex()]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def random_plan(c, kind):
    ops = [c.pick(OPS[kind]) for _ in range(c.py.randint(1, 4))]
    if c.chance(0.2):
        ops.insert(c.py.randrange(len(ops) + 1), c.pick(["core.identity", "core.ensure_float32"]) if kind in ("vision", "tabular", "audio") else "core.identity")
    mod = {"tokens": "text"}.get(kind, kind)
    return AugmentationPlan(steps=tuple(StepConfig(op_id=o, params=params(c, o)) for o in ops), modality=mod if c.chance(0.6) else None)
