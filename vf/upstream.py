"""Stand-ins for the upstream data sources of every provider (no network needed).

Each stand-in is attached to the *external* library's public entry point, never to the code under
test, and produces content that is a pure function of the request it receives.
"""
from __future__ import annotations

import hashlib
import sys
import types
from contextlib import contextmanager
from pathlib import Path

import numpy as np


def _rng(*parts):
    h = hashlib.sha256("|".join(map(repr, parts)).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


class Up:
    """Full upstream content of one source, and a log of the requests made."""

    def __init__(self, n_train=40, n_test=17, n_classes=4):
        self.n = {"train": n_train, "test": n_test, "validation": n_test + 1}
        self.k = n_classes
        self.log = []

    def part(self, source, split, kind):
        r = _rng(source, split)
        n = self.n[split]
        y = r.integers(0, self.k, size=n)
        if kind == "vec":
            X = np.column_stack([np.arange(n) + {"train": 0, "test": 1000, "validation": 2000}[split], r.normal(size=n).round(3)])
        elif kind == "img":
            X = r.integers(0, 255, size=(n, 3, 3)).astype(np.uint8)
            X[:, 0, 0] = np.arange(n)
        elif kind == "text":
            X = [f"{source}/{split}/{i} é" for i in range(n)]
        return X, y

    def graph(self, source, label_kind="int"):
        r = _rng(source, "graph")
        n = self.n["train"]
        X = np.column_stack([np.arange(n), r.normal(size=n)]).astype(np.float32)
        y = r.integers(0, self.k, size=n)
        ei = r.integers(0, n, size=(2, 4 * n))
        part = r.integers(0, 3, size=n)
        return X, y, ei, {"train": part == 0, "val": part == 1, "test": part == 2}


@contextmanager
def installed(up: Up):
    import sklearn.datasets as skd
    import torch
    import torch_geometric.datasets as pygd
    import torchaudio.datasets as tad
    import torchvision.datasets as tvd

    import datasets as hfd

    saved = [(skd, "fetch_openml", skd.fetch_openml), (hfd, "load_dataset", hfd.load_dataset)]

    def fetch_openml(name=None, *, version="active", data_id=None, data_home=None, target_column="default-target", return_X_y=False, as_frame="auto", **kw):
        up.log.append(("openml", name, version, data_id, data_home))
        X, y = up.part(("openml", name, data_id, version, target_column), "train", "vec")
        return X, np.array([f"k{v}" for v in y], dtype=object)

    def load_dataset(name, config=None, cache_dir=None, **kw):
        up.log.append(("hf", name, config, cache_dir))
        out = {}
        for sp in ("train", "validation", "test"):
            X, y = up.part(("hf", name, config), sp, "text")
            X2, y2 = up.part(("hf2", name, config), sp, "text")
            out[sp] = {"text": X, "label": y.tolist(), "body": X2, "stars": y2.tolist()}
        return out

    class VFVision:
        def __init__(self, root, train=True, download=False):
            up.log.append(("torchvision", "VFVision", train, root))
            X, y = up.part(("tv", "VFVision"), "train" if train else "test", "img")
            self.data, self.targets = X, y.tolist()

    class VFVision2:
        def __init__(self, root, split="train", download=False):
            up.log.append(("torchvision", "VFVision2", split, root))
            self._x, self._y = up.part(("tv", "VFVision2"), split, "img")

        def __iter__(self):
            return iter(list(zip(list(self._x), self._y.tolist())))

    class VFAudio:
        def __init__(self, root, subset="training", download=False):
            up.log.append(("torchaudio", "VFAudio", subset, root))
            X, y = up.part(("ta", "VFAudio"), "train" if subset == "training" else "test", "text")
            self._path = str(Path(root) / "au")
            self._walker = [f"class{int(v)}/{i}.wav" for i, v in enumerate(y)]

    class VFAudio2:
        def __init__(self, root, download=False):
            up.log.append(("torchaudio", "VFAudio2", None, root))
            X, y = up.part(("ta", "VFAudio2"), "train", "vec")
            self._items = [(torch.tensor(x), 16000, f"lab{int(v)}") for x, v in zip(X, y)]

        def __iter__(self):
            return iter(self._items)

    class _Data:
        pass

    class VFGraph:
        def __init__(self, root, name="a"):
            up.log.append(("pyg", name, root))
            X, y, ei, m = up.graph(("pyg", name))
            d = _Data()
            d.x, d.y, d.edge_index = torch.tensor(X), torch.tensor(y), torch.tensor(ei)
            d.train_mask, d.val_mask, d.test_mask = (torch.tensor(m[k]) for k in ("train", "val", "test"))
            self._d = d

        def __len__(self):
            return 1

        def __getitem__(self, i):
            return self._d

    tfds = types.ModuleType("tensorflow_datasets")

    def tload(full, split="train", as_supervised=True, data_dir=None):
        up.log.append(("tfds", full, split, data_dir))
        X, y = up.part(("tfds", full, as_supervised), split, "vec")
        return [(x, int(v)) for x, v in zip(X, y)]

    tfds.load = tload
    old_tfds = sys.modules.get("tensorflow_datasets")
    sys.modules["tensorflow_datasets"] = tfds
    skd.fetch_openml, hfd.load_dataset = fetch_openml, load_dataset
    tvd.VFVision, tvd.VFVision2, tad.VFAudio, tad.VFAudio2, pygd.VFGraph = VFVision, VFVision2, VFAudio, VFAudio2, VFGraph
    try:
        yield up
    finally:
        for m, k, v in saved:
            setattr(m, k, v)
        if old_tfds is None:
            sys.modules.pop("tensorflow_datasets", None)
        else:
            sys.modules["tensorflow_datasets"] = old_tfds
        for m, ks in ((tvd, ("VFVision", "VFVision2")), (tad, ("VFAudio", "VFAudio2")), (pygd, ("VFGraph",))):
            for k in ks:
                if hasattr(m, k):
                    delattr(m, k)
