"""Seeded generators of datasets, labels and plans shared by the checks."""
from __future__ import annotations

from typing import Any

import numpy as np


def labels(c, n: int, *, kinds=("int", "gap", "neg", "str", "obj", "float", "big"), max_classes: int = 6):
    """n labels over up to max_classes classes, often skewed, in one of several label types."""
    k = c.py.randint(1, max_classes)
    skew = c.pick(["uniform", "skew", "rare"])
    if skew == "uniform":
        p = np.ones(k)
    elif skew == "skew":
        p = 0.5 ** np.arange(k)
    else:
        p = np.r_[np.ones(max(1, k - 1)) * 10, 0.3][:k]
    p = p / p.sum()
    codes = c.rng.choice(k, size=n, p=p)
    kind = c.pick(list(kinds))
    if kind == "int":
        y = codes.astype(c.pick([np.int64, np.int32, np.uint8]))
    elif kind == "gap":
        vals = np.sort(c.rng.choice(50, size=k, replace=False))
        y = vals[codes].astype(np.int64)
    elif kind == "neg":
        y = (codes - 2).astype(np.int64)
    elif kind == "str":
        y = np.array([f"class_{i}" for i in range(k)])[codes] if n else np.array([], dtype="<U8")
    elif kind == "obj":
        y = np.empty(n, dtype=object)
        y[:] = [f"c{int(i)}" for i in codes]
    elif kind == "float":
        y = codes.astype(np.float64) * 1.5
    else:
        vals = np.sort(c.rng.choice(3_000_000, size=k, replace=False))
        y = vals[codes].astype(np.int64)
    return y, kind


def arr_eq(a: Any, b: Any) -> bool:
    """Exact equality of two values (type family, dtype, shape and content; NaN equals NaN)."""
    import scipy.sparse as sp

    if a is b:
        return True
    try:
        import torch

        if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
            if not (isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor)):
                return False
            return a.dtype == b.dtype and a.shape == b.shape and arr_eq(a.detach().cpu().numpy(), b.detach().cpu().numpy())
    except ImportError:
        pass
    if sp.issparse(a) or sp.issparse(b):
        if not (sp.issparse(a) and sp.issparse(b)):
            return False
        return a.shape == b.shape and a.dtype == b.dtype and arr_eq(a.toarray(), b.toarray())
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype == object:
            return all(arr_eq(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        if a.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(map(str, sorted(a, key=str))) == list(map(str, sorted(b, key=str))) and all(
            k in b and arr_eq(a[k], b[k]) for k in a
        )
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(arr_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return type(a) is type(b) and a == b


def digest(x: Any) -> str:
    """Content digest of nested arrays / containers (for purity and determinism monitors)."""
    import hashlib

    import scipy.sparse as sp

    h = hashlib.sha256()

    def go(o: Any) -> None:
        t = type(o)
        if o is None or t in (bool, int, str, bytes):
            h.update(f"{t.__name__}:{o!r};".encode())
        elif t is float:
            h.update(f"f:{o!r};".encode())
        elif isinstance(o, np.generic):
            h.update(f"g:{o.dtype}:{o!r};".encode())
        elif sp.issparse(o):
            h.update(f"sp:{o.shape}:{o.dtype}".encode())
            go(o.toarray())
        elif isinstance(o, np.ndarray):
            h.update(f"a:{o.dtype}:{o.shape};".encode())
            if o.dtype == object:
                for e in o.ravel().tolist():
                    go(e)
            else:
                h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, dict):
            h.update(f"d{len(o)}".encode())
            for k in sorted(o, key=lambda z: (str(type(z)), str(z))):
                go(k)
                go(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(f"{t.__name__}{len(o)}".encode())
            for e in o:
                go(e)
        elif hasattr(o, "detach") and hasattr(o, "numpy"):
            h.update(b"torch")
            if getattr(o, "is_sparse", False):
                o = o.to_dense()
            go(o.detach().cpu().numpy())
        elif hasattr(o, "__dataclass_fields__"):
            h.update(t.__name__.encode())
            for f in sorted(o.__dataclass_fields__):
                go(f)
                go(getattr(o, f))
        elif isinstance(o, (set, frozenset)):
            go(sorted(o, key=str))
        elif hasattr(o, "items"):
            go(dict(o))
        else:
            h.update(f"{t.__name__}:{o!r};".encode())

    go(x)
    return h.hexdigest()


def rng_state_digest() -> str:
    """Digest of the global random states a library call must not silently change."""
    import random
    import sys

    st = [str(random.getstate()), digest(np.random.get_state()[1]), int(np.random.get_state()[2])]
    if "torch" in sys.modules:
        st.append(digest(sys.modules["torch"].get_rng_state().numpy()))
    return digest(st)


def perturb_global_rng(c) -> None:
    import random
    import sys

    s = c.py.randrange(2**31)
    random.seed(s)
    np.random.seed(s)
    if "torch" in sys.modules:
        sys.modules["torch"].manual_seed(s)
