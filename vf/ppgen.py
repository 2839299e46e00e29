"""Generated datasets and preprocessing plans."""
from __future__ import annotations

from dataclasses import replace
from typing import Any

import numpy as np
from modssc.data_loader.types import LoadedDataset, Split
from modssc.preprocess.plan import PreprocessPlan, StepConfig

WORDS = ["alpha", "Beta", "gamma", "delta", "eps", "zeta", "Éta", "theta", "iota", "the", "a", "of", "x1", "42", "naïve", "日本", "!", "can't"]
MODALITIES = ["tabular", "mixed", "text", "vision", "audio", "graph"]
ROW_LOCAL_BLOCKLIST = {"graph.node2vec", "graph.dgi", "graph.edge_sparsify", "graph.attach_edge_weight", "graph.sparse_adjacency"}


def sentence(rng, lo=0, hi=9):
    k = int(rng.integers(lo, hi))
    return " ".join(WORDS[int(i)] for i in rng.integers(0, len(WORDS), k))


def make_X(rng, modality, n, shape):
    """n samples of a modality; ``shape`` fixes everything that train and test must share."""
    if modality == "tabular":
        X = rng.normal(size=(n, shape["d"])) * shape["scale"] + shape["shift"]
        if shape["nan"]:
            X[rng.random(X.shape) < 0.15] = np.nan
        return np.ascontiguousarray(X.astype(shape["dtype"]))
    if modality == "mixed":
        X = np.empty((n, shape["d"]), dtype=object)
        for j in range(shape["d"]):
            if j % 2 == 0:
                vals = ["red", "green", "blue", "x y", "?", None][: 3 + shape["levels"]]
                X[:, j] = [vals[int(i)] for i in rng.integers(0, len(vals), n)]
            else:
                X[:, j] = [float(np.round(v, 3)) if rng.random() > shape["miss"] else None for v in rng.normal(size=n)]
        return X
    if modality == "text":
        t = [sentence(rng) for _ in range(n)]
        if n:
            t[0] = "alpha beta alpha of of"
        return {"list": lambda: t, "obj": lambda: np.array(t, dtype=object), "U": lambda: np.array(t)}[shape["form"]]()
    if modality == "vision":
        s = (n, *shape["img"])
        return rng.integers(0, 256, s).astype(np.uint8) if shape["u8"] else rng.random(s).astype(np.float32)
    if modality == "audio":
        if shape["form"] == "2d":
            return rng.normal(size=(n, shape["T"])).astype(np.float32)
        waves = [rng.normal(size=int(rng.integers(3, shape["T"] + 8))).astype(np.float32) for _ in range(n)]
        if shape["form"] == "list":
            return waves
        X = np.empty(n, dtype=object)
        for i, w in enumerate(waves):
            X[i] = w
        return X
    if modality == "graph":
        return rng.normal(size=(n, shape["d"])).astype(np.float32)
    raise AssertionError(modality)


def make_shape(c, modality):
    r = c.py
    if modality == "tabular":
        return {"d": r.randint(1, 7), "scale": c.pick([1.0, 1.0, 50.0]), "shift": c.pick([0.0, 3.0]), "nan": c.chance(0.35),
                "dtype": c.pick(["float64", "float32", "float64"])}
    if modality == "mixed":
        return {"d": r.randint(1, 5), "levels": r.randint(0, 3), "miss": c.pick([0.0, 0.2])}
    if modality == "text":
        return {"form": c.pick(["list", "obj", "U"])}
    if modality == "vision":
        h, w = r.randint(5, 8), r.randint(5, 8)
        ch = c.pick([1, 3, 4, 2])
        return {"img": c.pick([(h, w, ch), (ch, h, w), (h, w)]), "u8": c.chance(0.5)}
    if modality == "audio":
        return {"form": c.pick(["2d", "list", "obj"]), "T": r.randint(12, 40)}
    return {"d": r.randint(1, 6)}


def make_y(rng, kind, n, classes):
    codes = rng.integers(0, classes, n)
    if kind == "int":
        return codes.astype(np.int64)
    if kind == "gap":
        return codes.astype(np.int64) * 7 - 3
    if kind == "str":
        return np.array([f"lab{int(i)}" for i in codes]) if n else np.array([], dtype="<U4")
    y = np.empty(n, dtype=object)
    y[:] = [f"L{int(i)}" for i in codes]
    return y


def make_edges(rng, n, e):
    return rng.integers(0, n, size=(2, e)).astype(np.int64)


def dataset(c, modality=None, *, fp="ds-a", n=None, test=None, shape=None, ykind=None, rng=None):
    modality = modality or c.pick(MODALITIES)
    rng = rng if rng is not None else c.rng
    shape = shape or make_shape(c, modality)
    n = n or c.py.randint(6, 24)
    m = c.py.randint(2, 10)
    if modality == "vision" and m in (3, 4):
        m += 2  # grey batches of 1, 3 or 4 images: see the known finding of P03
    has_test = c.chance(0.75) if test is None else test
    ykind = ykind or c.pick(["int", "gap", "str", "obj"])
    k = c.py.randint(2, 4)
    meta = {"modality": "tabular" if modality == "mixed" else modality, "dataset_fingerprint": fp}

    def split(cnt):
        e = None
        masks = None
        if modality == "graph":
            e = make_edges(rng, cnt, max(8, 3 * cnt))
            masks = {"train_mask": rng.random(cnt) < 0.5}
        return Split(X=make_X(rng, modality, cnt, shape), y=make_y(rng, ykind, cnt, k), edges=e, masks=masks)

    return LoadedDataset(train=split(n), test=split(m) if has_test else None, meta=meta), modality, shape


def S(step_id, **params):
    return StepConfig(step_id=step_id, params=params)


def step_pool(c, modality):
    """(step, weight-free) candidates by modality, with random parameters."""
    r = c.py
    core = [
        lambda: S("core.ensure_2d"), lambda: S("core.copy_raw"), lambda: S("core.to_numpy"),
        lambda: S("core.cast_dtype", dtype=c.pick(["float32", "float64", "float16"])), lambda: S("core.cast_fp16"),
        lambda: S("core.pca", n_components=r.randint(1, 4), center=c.chance(0.7)),
        lambda: S("core.random_projection", n_components=r.randint(1, 5), normalize=c.chance(0.6)),
        lambda: S("core.to_torch", dtype=c.pick(["float32", "float64", None])),
    ]
    lab = [
        lambda: S("labels.encode"), lambda: S("labels.ensure_onehot", unlabeled_value=c.pick([-1, -3, 0])),
        lambda: S("labels.to_numpy"), lambda: S("labels.to_torch", dtype=c.pick(["int64", "float32"])),
    ]
    spec = {
        "tabular": [lambda: S("tabular.standard_scaler", with_mean=c.chance(0.8), with_std=c.chance(0.8)),
                    lambda: S("tabular.impute", strategy=c.pick(["mean", "median", "most_frequent"]), add_indicator=c.chance(0.3)),
                    lambda: S("tabular.one_hot"), lambda: S("embeddings.auto")],
        "mixed": [lambda: S("tabular.one_hot"), lambda: S("tabular.standard_scaler"), lambda: S("tabular.impute", strategy="most_frequent")],
        "text": [lambda: S("text.ensure_strings"), lambda: S("text.hash_tokenizer", vocab_size=c.pick([50, 2000]), max_length=r.randint(2, 8), lowercase=c.chance(0.7)),
                 lambda: S("text.vocab_tokenizer", min_freq=r.randint(1, 2), max_length=r.randint(2, 8), vocab_size=c.pick([6, 100])),
                 lambda: S("text.tfidf", ngram_range=c.pick([[1, 1], [1, 2]]), max_features=c.pick([None, 5]), **c.pick([{}, {}, {"min_df": 2}, {"max_df": 0.7}])),
                 lambda: S("embeddings.auto"), lambda: S("text.sentence_transformer", model_id="stub:text")],
        "vision": [lambda: S("vision.channels_order", order=c.pick(["NCHW", "NHWC"])), lambda: S("vision.ensure_num_channels", num_channels=c.pick([1, 3])),
                   lambda: S("vision.resize", height=r.randint(4, 8), width=r.randint(5, 9)), lambda: S("vision.normalize", mean=[0.5], std=[0.25]),
                   lambda: S("vision.zca_whitening"), lambda: S("vision.squeeze", dim=c.pick([-1, 1]), as_list=c.chance(0.4)), lambda: S("embeddings.auto"),
                   lambda: S("vision.openclip", model_id="stub:vision")],
        "audio": [lambda: S("audio.load_waveform", max_length=c.pick([10, 16, None]), trim=c.pick(["start", "center", "end"]), pad_value=c.pick([0.0, 1.5])),
                  lambda: S("embeddings.auto"), lambda: S("audio.log_mel_spectrogram", sample_rate=800, n_fft=8, n_mels=3)],
        "graph": [lambda: S("graph.attach_edge_weight", weight=c.pick([1.0, 2.5])), lambda: S("graph.edge_sparsify", keep_fraction=c.pick([0.5, 0.8, 1.0])),
                  lambda: S("graph.sparse_adjacency"), lambda: S("graph.node2vec", embedding_dim=3, num_walks=1, walk_length=3),
                  lambda: S("graph.dgi", embedding_dim=3, hidden_dim=4, unsup_epochs=2)],
    }[modality]
    return core, lab, spec


def starter(c, modality):
    if modality in ("tabular", "graph", "vision", "audio"):
        if modality == "audio":
            return S("audio.load_waveform", max_length=c.pick([10, 16]), trim=c.pick(["start", "end"]))
        return S(c.pick(["core.ensure_2d", "core.copy_raw"]) if modality in ("tabular", "graph") else "core.ensure_2d")
    if modality == "mixed":
        return S("tabular.one_hot")
    return S(c.pick(["text.tfidf", "text.vocab_tokenizer", "embeddings.auto"]))


def random_step(c, modality):
    core, lab, spec = step_pool(c, modality)
    pool = c.pick([core, core, spec, spec, lab])
    return c.pick(pool)()


def plan(c, modality, lo=1, hi=5):
    steps = [random_step(c, modality) for _ in range(c.py.randint(lo, hi))]
    if c.chance(0.75):
        steps.insert(c.py.randint(0, min(1, len(steps))), starter(c, modality))
    return PreprocessPlan(steps=tuple(steps), output_key=c.pick(["features.X"] * 6 + ["raw.X", "tokens.input_ids"]))


def mutate(c, p, modality):
    """A plan that differs from p in one place: the histories that confuse a cache."""
    st = list(p.steps)
    k = c.py.randrange(len(st))
    op = c.pick(["swap", "swap", "param", "delete", "insert", "disable", "order", "key"])
    if op in ("swap", "param"):
        cand = random_step(c, modality)
        if op == "param":
            for _ in range(30):
                cand = random_step(c, modality)
                if cand.step_id == st[k].step_id:
                    break
        st[k] = cand
    elif op == "delete" and len(st) > 1:
        del st[k]
    elif op == "insert":
        st.insert(k, random_step(c, modality))
    elif op == "disable":
        st[k] = replace(st[k], enabled=not st[k].enabled)
    elif op == "order" and len(st) > 1:
        i, j = c.py.sample(range(len(st)), 2)
        st[i], st[j] = st[j], st[i]
    elif op == "key":
        return replace(p, output_key=c.pick(["features.X", "raw.X"]))
    return replace(p, steps=tuple(st))


def view(res) -> dict[str, Any]:
    """What a caller sees of a preprocess result."""
    def sp(s):
        return None if s is None else {"X": s.X, "y": s.y, "edges": s.edges, "masks": dict(s.masks) if s.masks is not None else None}

    return {"train": sp(res.dataset.train), "test": sp(res.dataset.test)}


def artifacts(res):
    return {"train": dict(res.train_artifacts.data), "test": None if res.test_artifacts is None else dict(res.test_artifacts.data)}


def diff(a, b, path="", *, rtol=0.0) -> str | None:
    """First difference between two result trees, or None. With rtol, floats may differ by rtol of their scale."""
    import scipy.sparse as sp
    import torch

    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{path}: keys {sorted(map(str, a))} != {sorted(map(str, b))}"
        for k in a:
            d = diff(a[k], b[k], f"{path}.{k}", rtol=rtol)
            if d:
                return d
        return None
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        if not (isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor)):
            return f"{path}: {type(a).__name__} != {type(b).__name__}"
        if a.dtype != b.dtype:
            return f"{path}: {a.dtype} != {b.dtype}"
        return diff(a.detach().cpu().numpy(), b.detach().cpu().numpy(), path, rtol=rtol)
    if sp.issparse(a) or sp.issparse(b):
        if not (sp.issparse(a) and sp.issparse(b)):
            return f"{path}: {type(a).__name__} != {type(b).__name__}"
        return diff(a.toarray(), b.toarray(), path, rtol=rtol)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {type(a).__name__} != {type(b).__name__}"
        if a.dtype != b.dtype or a.shape != b.shape:
            return f"{path}: {a.dtype}{a.shape} != {b.dtype}{b.shape}"
        if a.dtype == object:
            for i, (x, y) in enumerate(zip(a.ravel().tolist(), b.ravel().tolist())):
                d = diff(x, y, f"{path}[{i}]", rtol=rtol)
                if d:
                    return d
            return None
        if a.dtype.kind in "fc":
            if np.array_equal(a, b, equal_nan=True):
                return None
            if rtol:
                fa, fb = a.astype(np.float64), b.astype(np.float64)
                scale = float(np.nanmax(np.abs(fa[np.isfinite(fa)]))) if np.isfinite(fa).any() else 1.0
                if np.allclose(fa, fb, rtol=rtol, atol=rtol * max(scale, 1e-30), equal_nan=True):
                    return None
            bad = np.argwhere(~((a == b) | ((a != a) & (b != b))))[:1]
            return f"{path}: values differ first at {bad.tolist()} ({len(np.argwhere(a != b))} elements): {a[tuple(bad[0])]!r} != {b[tuple(bad[0])]!r}"
        return None if np.array_equal(a, b) else f"{path}: values differ"
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return f"{path}: {type(a).__name__}[{len(a)}] != {type(b).__name__}[{len(b)}]"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]", rtol=rtol)
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return None
    if type(a) is type(b) and a == b:
        return None
    return f"{path}: {str(a)[:80]!r} ({type(a).__name__}) != {str(b)[:80]!r} ({type(b).__name__})"


def attempt(fn):
    """("ok", value) or ("err", type name) — an outcome to compare between two runs of the same request."""
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", fn()
        except Exception as e:  # noqa: BLE001
            return "err", f"{type(e).__name__}"


def accepted(c, ds, make, tries: int = 6):
    """The first of a few candidate plans that the library accepts for this dataset (else the last candidate)."""
    from modssc.preprocess import preprocess

    for _ in range(tries):
        p = make()
        r = attempt(lambda: preprocess(ds, p, fit_indices=np.arange(len(ds.train.y)), cache=False))
        if r[0] == "ok":
            return p
        c.count("plans_rejected")
    return p
