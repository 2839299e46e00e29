"""D02: whatever interrupts a download, refresh or purge, later loads give one complete dataset."""
import shutil

import numpy as np
from modssc.data_loader import download_dataset, load_dataset
from modssc.data_loader import cache as dcache
from modssc.data_loader.errors import DatasetNotCachedError
from modssc.data_loader.types import LoadedDataset, Split

from vf import crash, dsgen
from vf.core import Module, short

M = Module(
    "D02",
    level="fault_enumeration",
    rule="Every mutating file operation of a dataset download / forced refresh / purge (from an empty or populated cache, "
    "numeric, text or object data) is interrupted by kill, torn write, I/O error or full disk, optionally twice in a row; "
    "then the cache is read with and without permission to download. Non-trivial: distinct (operation, initial state, injection point, kind).",
)

OPTS = {"seed": 7}


def version(v, kind):
    """Upstream content of version v: every array carries the version, so mixtures show."""
    n, m = 9 + v, 4 + v
    if kind == "num":
        X, T = np.full((n, 3), float(v)), np.full((m, 3), v + 0.5)
    elif kind == "text":
        X, T = np.array([f"v{v}-{i}" for i in range(n)], dtype=object), np.array([f"v{v}t{i}" for i in range(m)], dtype=object)
    else:
        X, T = np.empty(n, dtype=object), np.empty(m, dtype=object)
        for i in range(n):
            X[i] = {"v": v, "i": i}
        for i in range(m):
            T[i] = {"v": v, "t": i}
    return LoadedDataset(
        train=Split(X=X, y=np.full(n, v), edges=np.full((2, 5), v), masks={"train": np.arange(n) % (v + 2) == 0}),
        test=Split(X=T, y=np.full(m, v)), meta={"v": v})


def which(ds, kind, candidates):
    """The version this dataset is a complete copy of, or None."""
    from vf.gen import arr_eq

    for v in candidates:
        w = version(v, kind)
        ok = ds.test is not None and ds.meta.get("v") == v and ds.train.masks is not None
        ok = ok and arr_eq(np.asarray(ds.train.X), w.train.X) and arr_eq(np.asarray(ds.train.y), w.train.y)
        ok = ok and arr_eq(np.asarray(ds.test.X), w.test.X) and arr_eq(np.asarray(ds.test.y), w.test.y)
        ok = ok and ds.train.edges is not None and arr_eq(np.asarray(ds.train.edges), w.train.edges)
        ok = ok and set(ds.train.masks) == {"train"} and arr_eq(np.asarray(ds.train.masks["train"]), w.train.masks["train"])
        if ok:
            return v
    return None


class Source:
    def __init__(self, kind):
        self.kind, self.v = kind, 1

    def __call__(self, identity, raw_dir):
        return version(self.v, self.kind)


def inspect(c, root, kind, src, allowed, where):
    """Read the cache after an interruption; returns what a plain load gives."""
    try:
        got = load_dataset("toy", cache_dir=root, options=OPTS, download=False)
    except DatasetNotCachedError:
        c.count("not_cached_after_fault")
    except Exception as e:  # noqa: BLE001
        c.fail("stuck-cache", f"{where}: cache claims the dataset but loading it fails: {type(e).__name__}: {e}")
    else:
        c.check(which(got, kind, allowed) is not None, "mixed-dataset", f"{where}: cache serves neither of versions {allowed}")
        c.count("complete_after_fault")
    src.v = 3
    try:
        got = load_dataset("toy", cache_dir=root, options=OPTS)
    except Exception as e:  # noqa: BLE001
        c.fail("no-recovery", f"{where}: later load fails: {type(e).__name__}: {e}")
    v = which(got, kind, [*allowed, 3])
    c.check(v is not None, "mixed-dataset", f"{where}: later load gives an incomplete or mixed dataset")
    again = load_dataset("toy", cache_dir=root, options=OPTS, download=False)
    c.check(which(again, kind, [v]) is not None, "mixed-dataset", f"{where}: reload differs")
    return v


@M.scenario(quick=24, thorough=240)
def interrupted(c):
    kind = ["num", "text", "obj"][c.index % 3]
    op = ["download", "refresh", "purge", "gc"][(c.index // 3) % 4]
    populated = op in ("refresh", "purge", "gc")
    base = c.tmp()
    src = Source(kind)

    def setup(i):
        root = base / f"r{i}"
        root.mkdir()
        src.v = 1
        if populated:
            load_dataset("toy", cache_dir=root, options=OPTS)
        if op == "gc":  # a second, newer variant of the same dataset makes the first one garbage
            load_dataset("toy", cache_dir=root, options={"seed": 8})
        src.v = 2
        return root

    def act(root):
        def f():
            if op == "download":
                d = load_dataset("toy", cache_dir=root, options=OPTS)
                return which(d, kind, [2])
            if op == "refresh":
                d = download_dataset("toy", cache_dir=root, options=OPTS, force=True)
                return which(d, kind, [2])
            lay = dcache.CacheLayout(root=root.resolve())
            if op == "purge":
                dcache.purge_dataset(lay, "toy:default")
            else:
                dcache.gc_keep_latest(lay)
            return None
        return f

    allowed = [1, 2] if populated else [2]
    with dsgen.toy_source(src):
        root = setup("dry")
        r = crash.run(act(root), root)
        c.check(r["status"] == "done", "operation-fails", short(r))
        events = r["events"]
        c.check(len(events) >= 2, "no-events", "")
        pts = [p for p in crash.plan_points(events) if not (p[1] in ("torn", "full") and "index.sqlite" in events[p[0]][1])]
        if c.tier == "quick":
            pts = [p for p in pts if p[2] in (0, 37)]
        for i, (k, mode, lim) in enumerate(pts):
            root = setup(i)
            where = f"{op} hit by {mode}({lim}) at {events[k]}"
            c.note = {"where": where, "kind": kind}
            r = crash.run(act(root), root, at=k, mode=mode, limit=lim)
            c.count(f"injected_{mode}")
            c.count(f"outcome_{r['status']}")
            if r["status"] == "done" and op in ("download", "refresh"):
                c.check(r["value"] == 2, "wrong-return", f"{where}: returned a dataset other than the source's")
            if c.chance(0.25):  # a second interruption on top of the first
                k2 = c.py.randrange(len(events) + 3)
                crash.run(act(root), root, at=k2, mode=c.pick(["kill", "fault"]))
                c.count("double_faults")
            inspect(c, root, kind, src, allowed, where)
            src.v = 4
            f = download_dataset("toy", cache_dir=root, options=OPTS, force=True)
            c.check(which(f, kind, [4]) is not None, "no-recovery", f"{where}: forced refresh gives other data")
            c.check(which(load_dataset("toy", cache_dir=root, options=OPTS, download=False), kind, [4]) is not None, "no-recovery", f"{where}: forced refresh not stored")
            c.nontrivial([op, kind, populated, k, mode, lim])
            shutil.rmtree(root)
    c.sample({"op": op, "kind": kind, "file_operations": [list(e) for e in events][:20], "points": len(pts)})


@M.scenario(quick=60, thorough=1200)
def source_fails(c):
    """An error in the data source leaves an existing cache entry usable and creates none otherwise."""
    kind = c.pick(["num", "text", "obj"])
    root = c.tmp()
    src = Source(kind)
    populated = c.chance(0.5)
    with dsgen.toy_source(src):
        if populated:
            load_dataset("toy", cache_dir=root, options=OPTS)

    class Boom(RuntimeError):
        pass

    def bad(identity, raw_dir):
        (raw_dir / "partial.bin").write_bytes(b"x")
        raise Boom("source down")

    with dsgen.toy_source(bad):
        c.raises(Boom, lambda: load_dataset("toy", cache_dir=root, options=OPTS, force=True), "source-error-hidden", "failing source")
        if populated:
            got = load_dataset("toy", cache_dir=root, options=OPTS, download=False)
            c.check(which(got, kind, [1]) is not None, "source-error-destroys", "failed refresh destroyed the cached dataset")
        else:
            c.raises(DatasetNotCachedError, lambda: load_dataset("toy", cache_dir=root, options=OPTS, download=False), "source-error-caches", "")
    src.v = 2
    with dsgen.toy_source(src):
        got = load_dataset("toy", cache_dir=root, options=OPTS)
        c.check(which(got, kind, [1] if populated else [2]) is not None, "no-recovery", "load after a source failure")
    c.nontrivial([kind, populated, c.index])
