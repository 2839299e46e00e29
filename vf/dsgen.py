"""Datasets of many storable shapes, and a provider stand-in that returns them."""
from __future__ import annotations

from contextlib import contextmanager

import numpy as np
from modssc.data_loader.providers.toy import ToyProvider
from modssc.data_loader.types import LoadedDataset, Split

STR = ["", "a", "line\nbreak", "tab\there", "é中文😀", 'quote"\\', "x" * 300, "\u2028", "null", "0", "\x00z", " trail "]


def features(c, n):
    kind = c.pick(["f32", "f64", "i8", "u8img", "bool", "str", "str2d", "ustr", "ragged", "dicts", "mixed", "list", "torch", "c64", "f16", "nan", "fortran", "1d", "paths", "strlists", "emptyarrs"])
    r = c.rng
    if kind == "f32":
        return kind, r.normal(size=(n, 3)).astype(np.float32)
    if kind == "f64":
        return kind, r.normal(size=(n, 2, 2))
    if kind == "i8":
        return kind, r.integers(-100, 100, size=(n, 4)).astype(np.int8)
    if kind == "u8img":
        return kind, r.integers(0, 256, size=(n, 4, 4, 3)).astype(np.uint8)
    if kind == "bool":
        return kind, r.random((n, 3)) < 0.5
    if kind == "str":
        a = np.empty(n, dtype=object)
        a[:] = [c.pick(STR) + str(i) for i in range(n)]
        return kind, a
    if kind == "str2d":
        a = np.empty((n, 2), dtype=object)
        for i in range(n):
            a[i, 0], a[i, 1] = c.pick(STR), c.pick(STR)
        return kind, a
    if kind == "ustr":
        return kind, np.array([c.pick(["a", "bb", "é", "😀x"]) for _ in range(n)])
    if kind == "ragged":
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = r.normal(size=c.py.randint(0, 5))
        return kind, a
    if kind == "dicts":
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = {"k": i, "v": [1, "x"]}
        return kind, a
    if kind == "mixed":
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = c.pick([None, 1, 2.5, "s", (1, 2), True])
        return kind, a
    if kind == "list":
        return kind, r.normal(size=(n, 2)).tolist()
    if kind == "torch":
        import torch

        return kind, torch.tensor(r.normal(size=(n, 3)).astype(np.float32))
    if kind == "c64":
        return kind, (r.normal(size=(n, 2)) + 1j * r.normal(size=(n, 2))).astype(np.complex64)
    if kind == "f16":
        return kind, r.normal(size=(n, 2)).astype(np.float16)
    if kind == "nan":
        x = r.normal(size=(n, 3))
        x[r.random((n, 3)) < 0.3] = c.pick([np.nan, np.inf, -np.inf])
        return kind, x
    if kind == "fortran":
        return kind, np.asfortranarray(r.normal(size=(n, 5)))
    if kind in ("strlists", "emptyarrs"):
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = ["tok", f"t{i}"] if kind == "strlists" else np.zeros(0)
        return kind, a
    if kind == "1d":
        return kind, r.normal(size=n)
    a = np.empty(n, dtype=object)
    a[:] = [f"/data/x/{i}.wav" for i in range(n)]
    return "paths", a


def meta(c):
    leaf = lambda: c.pick([None, True, False, 0, -3, 2.5, "txt", "é", [1, 2], ["a", None], {"a": {"b": 1}}, [], {}])
    return {k: leaf() for k in c.py.sample(["name", "classes", "é", "nested", "x y", "modality", "provider", "zz"], c.py.randint(0, 5))}


def dataset(c, *, small=False):
    n = c.pick([1, 2, 5, 17]) if small else c.pick([0, 1, 2, 5, 17, 60])
    if n == 0:
        kind, X = c.pick([("e32", np.zeros((0, 3), np.float32)), ("e1", np.zeros((0,))), ("eobj", np.empty((0,), dtype=object)), ("eobj2", np.empty((0, 3), dtype=object))])
    else:
        kind, X = features(c, n)

    def lab(m):
        k = c.pick(["int", "i32", "str", "ustr", "float", "onehot", "list"])
        if k == "int":
            return c.rng.integers(0, 3, size=m)
        if k == "i32":
            return c.rng.integers(0, 3, size=m).astype(np.int32)
        if k == "str":
            a = np.empty(m, dtype=object)
            a[:] = [c.pick(["yes", "no", "é"]) for _ in range(m)]
            return a
        if k == "ustr":
            return np.array([c.pick(["yes", "no"]) for _ in range(m)], dtype="<U3")
        if k == "float":
            return c.rng.normal(size=m)
        if k == "onehot":
            return np.eye(3)[c.rng.integers(0, 3, size=m)]
        return c.rng.integers(0, 3, size=m).tolist() if m else np.zeros(0, int)

    edges = masks = None
    if c.chance(0.3):
        edges = c.rng.integers(0, max(n, 1), size=(2, c.pick([0, 1, 20])))
        if c.chance(0.15):
            edges = np.zeros(c.pick([(0, 2), (0,)]), dtype=np.int64)
    if c.chance(0.3):
        masks = {k: c.rng.random(n) < 0.5 for k in c.py.sample(["train", "val", "test", "extra", "Train", "VAL", "a b", "m_0"], c.py.randint(1, 4))}
        if c.chance(0.3):
            masks = {k: v.astype(np.int64) for k, v in masks.items()}
        if c.chance(0.1):
            masks = {}
    test = None
    if c.chance(0.5):
        m = c.pick([1, 3, 11])
        tk, tX = features(c, m)
        test = Split(X=tX, y=lab(m))
    return LoadedDataset(train=Split(X=X, y=lab(n), edges=edges, masks=masks), test=test, meta=meta(c)), kind


@contextmanager
def toy_source(fn):
    """Make the toy provider return ``fn(identity, raw_dir)`` (the provider is the data source)."""
    old = ToyProvider.load_canonical
    ToyProvider.load_canonical = lambda self, identity, *, raw_dir: fn(identity, raw_dir)
    try:
        yield
    finally:
        ToyProvider.load_canonical = old
