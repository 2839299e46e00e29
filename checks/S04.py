"""S04: saved splits load back identically; an interrupted save never yields a mixed or partial split."""
import dataclasses
import shutil

import numpy as np
from modssc.sampling import load_split, sample, save_split
from modssc.sampling import plan as P

from vf import crash, gen, samp
from vf.core import Module, short

M = Module(
    "S04",
    level="fault_enumeration",
    rule="Random splits (inductive and graph) are saved and loaded; then every file-system operation of a save (also over "
    "an existing other split) is interrupted by a kill, a torn write, an I/O error or a full disk, and the directory is "
    "loaded. Non-trivial: a distinct (split pair, injection point, kind).",
)


def some_split(c, **kw):
    ds, info = samp.dataset(c, **kw)
    pl = samp.plan(c, info["n"])
    return sample(ds, plan=pl, seed=c.py.randrange(10**6))[0], ds, info, pl


def same(a, b) -> str | None:
    for f in ("schema_version", "created_at", "dataset_fingerprint", "split_fingerprint"):
        if getattr(a, f) != getattr(b, f):
            return f
    for f in ("plan", "refs", "stats"):
        if dict(getattr(a, f)) != dict(getattr(b, f)):
            return f
    for f in ("indices", "masks"):
        x, y = getattr(a, f), getattr(b, f)
        if set(x) != set(y):
            return f
        for k in x:
            if not np.array_equal(np.asarray(x[k]), np.asarray(y[k])) or np.asarray(x[k]).shape != np.asarray(y[k]).shape:
                return f"{f}[{k}]"
            if np.asarray(x[k]).dtype.kind != np.asarray(y[k]).dtype.kind:
                return f"{f}[{k}] dtype"
    return None


@M.scenario(quick=300, thorough=4000)
def roundtrip(c):
    res, ds, info, pl = some_split(c)
    c.note = {"info": info, "plan": pl.as_dict()}
    root = c.tmp()
    out = root / "a" / "b"
    arg = c.pick([out, str(out)])
    ret = save_split(res, arg)
    got = load_split(c.pick([ret, arg]))
    d = same(res, got)
    c.check(d is None, "roundtrip", f"{d} differs after save and load")
    if info["graph"]:
        got.validate(n_train=0, n_test=None, n_nodes=info["n"])
    else:
        got.validate(n_train=info["n"], n_test=info["n_test"], n_nodes=None)
    # refusing to overwrite leaves the saved split alone
    other, *_ = some_split(c)
    c.raises(FileExistsError, lambda: save_split(other, arg), "silent-overwrite", "save over an existing split without overwrite")
    c.check(same(res, load_split(arg)) is None, "silent-overwrite", "refused save changed the stored split")
    save_split(other, arg, overwrite=True)
    d = same(other, load_split(arg))
    c.check(d is None, "overwrite", f"{d} is not the overwritten split's")
    # caller-visible cache path: same inputs give the same place, different inputs different places
    r1, p1 = sample(ds, plan=pl, seed=5, save=True, cache_root=root / "cache")
    r2, p2 = sample(ds, plan=pl, seed=6, save=True, cache_root=root / "cache")
    r3, p3 = sample(ds, plan=pl, seed=5, save=True, cache_root=root / "cache", overwrite=True)
    c.check(p1 == p3 and p1 != p2, "cache-path", f"{p1} {p2} {p3}")
    c.check(same(r3, load_split(p1)) is None and same(r2, load_split(p2)) is None, "cache-content", "")
    c.count("roundtrips")
    c.nontrivial([info, pl.as_dict()])
    c.sample({"info": info, "dir_entries": sorted(x.name for x in out.iterdir())})


@M.scenario(quick=48, thorough=600)
def interrupted(c):
    kw = {"graph": c.chance(0.3)}
    old, *_ = some_split(c, **kw)
    new, *_ = some_split(c, **({"graph": c.chance(0.3)} if c.chance(0.2) else kw))
    had_old = c.chance(0.75)
    root = c.tmp()

    def fresh(i):
        d = root / f"r{i}"
        d.mkdir()
        if had_old:
            save_split(old, d / "split")
        return d

    d = fresh("dry")
    r = crash.run(lambda: str(save_split(new, d / "split", overwrite=True)), d)
    c.check(r["status"] == "done", "save-fails", short(r))
    events = r["events"]
    c.check(len(events) >= 2, "no-events", "harness saw no file operations")
    pts = crash.plan_points(events)
    for i, (k, mode, lim) in enumerate(pts):
        d = fresh(i)
        c.note = {"at": k, "mode": mode, "limit": lim, "event": events[k], "had_old": had_old}
        r = crash.run(lambda: str(save_split(new, d / "split", overwrite=True)), d, at=k, mode=mode, limit=lim)
        c.count(f"injected_{mode}")
        try:
            got = load_split(d / "split")
        except Exception:  # noqa: BLE001  an error is an honest answer
            got = None
            c.count("load_refused")
        if got is not None:
            ok = same(new, got) is None or (had_old and same(old, got) is None)
            c.check(ok, "mixed-split", f"after {mode} at {events[k]} (limit {lim}) the directory loads as neither the old nor the new split")
            c.count("load_consistent")
        if r["status"] == "done":
            c.check(got is not None and same(new, got) is None, "lost-split", f"save reported success despite {mode} at {events[k]} but the split is not there")
        save_split(new, d / "split", overwrite=True)
        c.check(same(new, load_split(d / "split")) is None, "no-recovery", f"a second save after {mode} at {events[k]} does not repair the directory")
        c.nontrivial([c.index, k, mode, lim])
        shutil.rmtree(d)
    c.sample({"events": events, "points": len(pts), "had_old": had_old})
