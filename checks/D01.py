"""D01: a dataset loaded from the cache is the dataset the source provided."""
import copy
import os

import numpy as np
from modssc.data_loader import download_dataset, load_dataset
from modssc.data_loader.errors import DatasetNotCachedError
from modssc.data_loader.types import LoadedDataset, Split

from vf import dsgen, gen
from vf.core import Module, short

M = Module(
    "D01",
    rule="Random datasets over 22 feature kinds (all numeric kinds, images, strings with control/unicode characters, ragged, "
    "dict and mixed objects, tensors, lists, empty) x 7 label kinds x edges/masks/test/meta, stored through the dataset "
    "loader and read back with and without memory mapping. Non-trivial: distinct dataset content.",
)


def as_np(v, dtype=None):
    if v is None:
        return None
    if isinstance(v, np.ndarray):
        return v.astype(dtype) if dtype else v
    if hasattr(v, "detach"):
        v = v.detach().cpu().numpy()
    return np.asarray(v, dtype=dtype)


def split_np(s):
    if s is None:
        return None
    return {"X": as_np(s.X), "y": as_np(s.y), "edges": as_np(s.edges),
            "masks": None if s.masks is None else {k: as_np(v, bool) for k, v in s.masks.items()}}


def unmap(v):
    return np.asarray(v) if isinstance(v, np.ndarray) else v


def all_numpy(c, got, tag):
    """With as_numpy=True every array handed out is a numpy array."""
    for part in ("train", "test"):
        g = getattr(got, part)
        for f in () if g is None else ("X", "y", "edges"):
            v = getattr(g, f)
            c.check(v is None or isinstance(v, np.ndarray), f"{tag}-not-numpy", lambda: f"as_numpy=True gave {type(v).__name__} for {part}.{f}")
        for k, v in (g.masks or {}).items() if g is not None else ():
            c.check(isinstance(v, np.ndarray), f"{tag}-not-numpy", lambda: f"as_numpy=True gave {type(v).__name__} for mask {k}")


def compare(c, got, want, tag, numpy=False):
    if numpy:
        all_numpy(c, got, tag)
    for part in ("train", "test"):
        g, w = getattr(got, part), want[part]
        c.check((g is None) == (w is None), f"{tag}-split-missing", part)
        if w is None:
            continue
        for f in ("X", "y", "edges"):
            c.check(gen.arr_eq(unmap(as_np(getattr(g, f))), w[f]), f"{tag}-content", lambda: f"{part}.{f}: stored {short(w[f])} loaded {short(getattr(g, f))}")
        if w["masks"] is None:
            c.check(g.masks is None, f"{tag}-masks", part)
        else:
            c.check(g.masks is not None and set(g.masks) == set(w["masks"]), f"{tag}-masks", part)
            for k in w["masks"]:
                c.check(gen.arr_eq(unmap(as_np(g.masks[k], bool)), w["masks"][k]), f"{tag}-masks", k)
        c.count("splits_compared")


@M.scenario(quick=900, thorough=12000)
def roundtrip(c):
    ds, kind = dsgen.dataset(c)
    want = {"train": split_np(copy.deepcopy(ds.train)), "test": split_np(copy.deepcopy(ds.test))}
    meta0 = copy.deepcopy(dict(ds.meta))
    root = c.tmp()
    calls = []

    def source(identity, raw_dir):
        calls.append(identity)
        return LoadedDataset(train=ds.train, test=ds.test, meta=copy.deepcopy(meta0))

    opts = {"seed": c.py.randrange(1000)}
    c.note = {"kind": kind, "meta": short(meta0)}
    thr = c.pick([None, "0", "1", "200"])
    if thr is not None:
        os.environ["MODSSC_DATA_LOADER_MMAP_THRESHOLD"] = thr
    try:
        with dsgen.toy_source(source):
            c.raises(DatasetNotCachedError, lambda: load_dataset("toy", cache_dir=root, download=False, options=opts), "not-cached", "no download allowed")
            c.check(not calls, "download-forbidden", "source contacted although download=False")
            npy = c.chance(0.5)
            first = c.pick([load_dataset, download_dataset])("toy", cache_dir=root, options=opts, as_numpy=npy)
            c.check(len(calls) == 1, "first-load", f"{len(calls)} source loads")
            compare(c, first, want, "first", npy)
            for _ in range(2):
                npy = c.chance(0.5)
                if c.chance(0.6):
                    got = load_dataset("toy", cache_dir=root, options=opts, download=c.chance(0.5), as_numpy=npy)
                else:
                    got = download_dataset("toy", cache_dir=root, options=opts, as_numpy=npy)
                compare(c, got, want, "cached", npy)
                m = dict(got.meta)
                fp = m.pop("dataset_fingerprint", None)
                c.check(isinstance(fp, str) and len(fp) >= 16, "fingerprint-meta", f"{fp!r}")
                c.check(fp == first.meta.get("dataset_fingerprint"), "fingerprint-meta", "fingerprint differs between loads")
                c.check(m == meta0, "meta", lambda: f"stored {meta0} loaded {m}")
            c.check(len(calls) == 1, "cache-miss", f"cached dataset fetched again ({len(calls)} source loads)")
            download_dataset("toy", cache_dir=root, options=opts)
            c.check(len(calls) == 1, "cache-miss", "download_dataset fetched a cached dataset again")
    finally:
        os.environ.pop("MODSSC_DATA_LOADER_MMAP_THRESHOLD", None)
    c.nontrivial(gen.digest([want, meta0]))
    c.sample({"kind": kind, "n": int(len(want["train"]["y"])), "meta": short(meta0), "mmap_threshold": thr})


@M.scenario(quick=150, thorough=2000)
def forced_refresh(c):
    """force=True replaces the stored dataset completely; other entries stay as they are."""
    a, _ = dsgen.dataset(c, small=True)
    b, _ = dsgen.dataset(c, small=True)
    o, _ = dsgen.dataset(c, small=True)
    root = c.tmp()
    state = {"cur": a}

    def source(identity, raw_dir):
        d = o if identity.resolved_kwargs["seed"] == 2 else state["cur"]
        return LoadedDataset(train=d.train, test=d.test, meta=dict(d.meta))

    w = lambda d: {"train": split_np(d.train), "test": split_np(d.test)}
    with dsgen.toy_source(source):
        load_dataset("toy", cache_dir=root, options={"seed": 1})
        load_dataset("toy", cache_dir=root, options={"seed": 2})
        state["cur"] = b
        compare(c, load_dataset("toy", cache_dir=root, options={"seed": 1}), w(a), "no-force")
        compare(c, c.pick([load_dataset, download_dataset])("toy", cache_dir=root, options={"seed": 1}, force=True), w(b), "force")
        compare(c, load_dataset("toy", cache_dir=root, options={"seed": 1}, download=False), w(b), "after-force")
        compare(c, load_dataset("toy", cache_dir=root, options={"seed": 2}, download=False), w(o), "other-entry")
    c.nontrivial(gen.digest([w(a), w(b)]))


@M.scenario(quick=60, thorough=800)
def moved_cache(c):
    """A cache folder that was moved as a whole still works: stored file paths refer to the files in the new place."""
    import shutil
    from pathlib import Path

    from vf import upstream

    up = upstream.Up(n_train=c.pick([3, 12]), n_test=c.pick([2, 6]))
    base = c.tmp().resolve()
    old = base / c.pick(["old", "source", "a/source/b", "cache-2", "newer"])
    new = base / c.pick(["new", "new", "source2", "x/source/y", "cache"])
    n = c.index
    with upstream.installed(up):
        import torchaudio.datasets as tad

        class VFAudioFiles:
            """Files below <root>/sub, listed relative or absolute, as SPEECHCOMMANDS and YESNO do."""

            def __init__(self, root, **kw):
                if split_kind == "single" and kw.get("subset"):
                    raise TypeError("no subset")
                self._path = str(Path(root) / sub)
                self._walker = []
                for i in range(4 if kw.get("subset", "training") == "training" else 3):
                    p = Path(self._path) / f"c{i % 2}" / f"{kw.get('subset')}{i}.wav"
                    p.parent.mkdir(parents=True, exist_ok=True)
                    p.write_bytes(str(p.relative_to(root)).encode())
                    self._walker.append(str(p) if n % 2 else str(p.relative_to(self._path)))

        split_kind = c.pick(["split", "single"])
        sub = c.pick(["au", "sources", "x/y"])
        tad.VFAudioFiles = VFAudioFiles
        try:
            first = load_dataset("torchaudio:VFAudioFiles", cache_dir=old)
            plain = c.chance(0.3)
            if not plain:
                new.parent.mkdir(parents=True, exist_ok=True)
                shutil.move(str(old), str(new))
            at = old if plain else new
            c.note = {"from": str(old)[len(str(base)):], "to": str(at)[len(str(base)):], "sub": sub, "kind": split_kind}
            del tad.VFAudioFiles
            npy = c.chance(0.3)
            got = c.pick([lambda: load_dataset("torchaudio:VFAudioFiles", cache_dir=at, download=False, as_numpy=npy), lambda: download_dataset("torchaudio:VFAudioFiles", cache_dir=at, as_numpy=npy)])()
        finally:
            if hasattr(tad, "VFAudioFiles"):
                del tad.VFAudioFiles
    for part in ("train", "test"):
        a, b = getattr(first, part), getattr(got, part)
        c.check((a is None) == (b is None) == (part == "test" and split_kind == "single"), "moved-split", part)
        if a is None:
            continue
        want = [str(at) + str(x)[len(str(old)):] for x in a.X]
        c.check(list(map(str, np.asarray(b.X).ravel())) == want, "moved-paths", lambda: f"{part}: {[str(x) for x in b.X][:2]} want {want[:2]}")
        c.check(list(b.y) == list(a.y), "moved-labels", part)
        for x in b.X:
            c.check(Path(x).is_file() and Path(x).read_bytes().decode().endswith(Path(x).name), "moved-file", lambda: f"{x} is not the file stored with the dataset")
            c.count("moved_files_opened")
    c.nontrivial([c.note, c.index])
