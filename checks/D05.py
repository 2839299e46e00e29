"""D05: cache maintenance removes exactly what it names, keeps the rest loadable, and never leaves the cache folder."""
import json
import os
import shutil
import sys

import numpy as np
from modssc.data_loader import download_dataset, load_dataset
from modssc.data_loader import cache as dcache
from modssc.data_loader.errors import DatasetNotCachedError
from modssc.data_loader.types import LoadedDataset, Split

from vf import dsgen, gen
from vf.core import Module, short

M = Module(
    "D05",
    rule="Random histories (4-16 steps) of load, force, purge (by fingerprint, by dataset, through the CLI), keep-latest, index "
    "rebuild, listing and outside damage on one cache, mirrored by a dictionary model that is compared with index, disk and "
    "loads after every step; and hostile names purged in a contained process with decoy files around the cache. Non-trivial: "
    "distinct histories with at least one removal.",
)

URIS = ["toy", "toy:a", "openml:12", "openml:name=aa", "openml:name=a_", "openml:name=%"]


class World:
    """The sources: what each (dataset, seed) holds now, and how often it was asked."""

    def __init__(self):
        self.gen = {}
        self.calls = 0

    def data(self, uri, seed):
        g = self.gen.get((uri, seed), 0)
        r = np.random.default_rng([URIS.index(uri), seed, g])
        n = 6 + 40 * (g % 3)  # refreshed content has another size
        return r.normal(size=(n, 2)), r.integers(0, 2, size=n)


def sources(w):
    """Attach the world to the toy provider and to OpenML's download function."""
    import sklearn.datasets as skd

    def toy(identity, raw_dir):
        w.calls += 1
        X, y = w.data("toy", identity.resolved_kwargs["seed"])
        return LoadedDataset(train=Split(X=X, y=y), test=None, meta={})

    def fetch_openml(name=None, *, version="active", data_id=None, **kw):
        w.calls += 1
        return w.data("openml:12" if data_id else f"openml:name={name}", 0 if version == "active" else int(version))

    return toy, fetch_openml, skd


def request(uri, seed):
    if uri.startswith("openml"):
        return uri, ({"version": seed} if seed else {})
    return uri, {"seed": seed}


def same(ds, want):
    return gen.arr_eq(np.asarray(ds.train.X), want[0]) and gen.arr_eq(np.asarray(ds.train.y), want[1])


@M.scenario(quick=130, thorough=2500)
def histories(c):
    from typer.testing import CliRunner

    from modssc.cli.app import app

    w = World()
    toy, fetch, skd = sources(w)
    root = c.tmp().resolve()
    lay = dcache.CacheLayout(root=root)
    keys = [(u, s) for u in ("toy", "openml:12", "openml:name=aa") for s in (0, 1, 2)] + [("openml:name=a_", 0), ("openml:name=%", 1)]
    model = {}  # key -> dict(fp, data, uri)
    fps = {}
    steps = []
    old = skd.fetch_openml
    skd.fetch_openml = fetch
    try:
        with dsgen.toy_source(toy):
            # fingerprints, from a private cache
            side = c.tmp()
            uris = {}
            for k in keys:
                r, o = request(*k)
                fps[k] = load_dataset(r, cache_dir=side, options=o).meta["dataset_fingerprint"]
            for row in dcache.index_list(dcache.CacheLayout(root=side.resolve())):
                uris[row["fingerprint"]] = row["canonical_uri"]
            c.check(len(set(fps.values())) == len(keys) and set(uris) == set(fps.values()), "index-complete", short(uris))
            orphans = set()  # damaged and no longer indexed: their leftovers are nobody's promise
            stale = set()  # in the index but damaged on disk from outside
            load_dataset("toy", cache_dir=root, options={"seed": 0})
            model[("toy", 0)] = w.data("toy", 0)
            for _ in range(c.py.randint(4, 16)):
                op = c.pick(["load", "load", "load", "force", "purge_fp", "purge_ds", "gc", "rebuild", "redate", "cli_purge", "cli_gc", "damage", "new_upstream", "junk"])
                k = c.pick(keys)
                r, o = request(*k)
                steps.append([op, list(k)])
                c.note = {"steps": steps}
                if op == "new_upstream":
                    w.gen[k] = w.gen.get(k, 0) + 1
                    continue
                if op == "junk":
                    (lay.manifests_root / c.pick(["junk.json", "note.txt"])).write_text(c.pick(["", "{", "[]"]))
                    (lay.processed_root / "leftover").mkdir(exist_ok=True)
                    continue
                if op == "load":
                    n0 = w.calls
                    ds = load_dataset(r, cache_dir=root, options=o)
                    if k in model:
                        c.check(w.calls == n0, "cache-miss", f"{k} was cached")
                    else:
                        c.check(w.calls == n0 + 1, "phantom-entry", f"{k} was served although it was not cached")
                        model[k] = w.data(*k)
                    c.check(same(ds, model[k]), "wrong-content", f"{k}")
                    stale.discard(k)
                    orphans.discard(k)
                elif op == "force":
                    n0 = w.calls
                    ds = c.pick([load_dataset, download_dataset])(r, cache_dir=root, options=o, force=True)
                    c.check(w.calls == n0 + 1, "force-not-fetched", f"{k}")
                    model[k] = w.data(*k)
                    c.check(same(ds, model[k]), "wrong-content", f"forced {k}")
                    stale.discard(k)
                    orphans.discard(k)
                elif op in ("purge_fp", "purge_ds", "cli_purge", "gc", "cli_gc"):
                    rows = {x["fingerprint"]: x for x in dcache.index_list(lay)}
                    before = {kk for kk in model} | stale
                    if op == "purge_fp":
                        dcache.purge_fingerprint(lay, fps[k])
                        gone = {k}
                    elif op == "purge_ds":
                        uri = uris[fps[k]]
                        got = dcache.purge_dataset(lay, uri)
                        gone = {kk for kk in before if uris[fps[kk]] == uri}
                        c.check(set(got) == {fps[kk] for kk in gone}, "purge-report", lambda: f"purge {uri} reported {got}")
                    elif op == "cli_purge":
                        whole = c.chance(0.5)
                        arg = uris[fps[k]] if whole else fps[k]
                        res = CliRunner().invoke(app, ["datasets", "cache", "purge", arg, "--cache-dir", str(root)] + ([] if whole else ["--fingerprint"]))
                        c.check(res.exit_code == 0, "cli-purge", lambda: f"{res.output} {res.exception!r}")
                        gone = {kk for kk in before if uris[fps[kk]] == arg} if whole else {k}
                    else:
                        if op == "gc":
                            got = set(dcache.gc_keep_latest(lay))
                        else:
                            res = CliRunner().invoke(app, ["datasets", "cache", "gc", "--cache-dir", str(root), "--keep-latest"])
                            c.check(res.exit_code == 0, "cli-gc", lambda: f"{res.output} {res.exception!r}")
                            got = set(rows) - {x["fingerprint"] for x in dcache.index_list(lay)}
                        by = {}
                        for fp, x in rows.items():
                            by.setdefault(x["canonical_uri"], []).append((x["created_at"], fp))
                        for uri, lst in by.items():
                            newest = max(d for d, _ in lst)
                            kept = [fp for d, fp in lst if fp not in got]
                            c.check(len(kept) == 1 and dict((fp, d) for d, fp in lst)[kept[0]] == newest, "gc-wrong-variant", lambda: f"{uri}: {sorted(lst)} kept {kept}")
                        gone = {kk for kk in before if fps[kk] in got}
                    for g in gone:
                        model.pop(g, None)
                        stale.discard(g)
                        orphans.discard(g)
                    c.count("removals", len(gone))
                elif op == "rebuild":
                    if c.chance(0.3):
                        lay.index_path.unlink()
                    dcache.rebuild_index(lay)
                    orphans |= stale
                    stale.clear()
                elif op == "redate":  # entries of several ages (as after a copied or long-lived cache)
                    for kk in list(model):
                        p = lay.manifest_path(fps[kk])
                        d = json.loads(p.read_text())
                        d["created_at"] = f"20{c.py.randint(10, 24)}-01-{c.py.randint(1, 28):02d}T00:00:{c.py.randint(0, 59):02d}+00:00"
                        p.write_text(json.dumps(d))
                    dcache.rebuild_index(lay)
                    orphans |= stale
                    stale.clear()
                elif op == "damage" and k in model:
                    if c.chance(0.5):
                        lay.manifest_path(fps[k]).unlink()
                    else:
                        shutil.rmtree(lay.processed_dir(fps[k]))
                    model.pop(k)
                    stale.add(k)
                # the index lists exactly the cached entries
                rows = {x["fingerprint"]: x for x in dcache.index_list(lay)}
                want = {fps[kk] for kk in model} | {fps[kk] for kk in stale}
                c.check(set(rows) == want, "index-out-of-sync", lambda: f"after {steps[-1]}: index {len(rows)} entries, model {len(want)}; extra {set(rows) - want} missing {want - set(rows)}")
                for kk in model:
                    x = rows[fps[kk]]
                    held = sum(f.stat().st_size for f in lay.processed_dir(fps[kk]).rglob("*") if f.is_file())
                    c.check(x["size_bytes"] == held, "index-wrong-size", lambda: f"after {steps[-1]}: {kk} listed with {x['size_bytes']} bytes, holds {held}")
                    c.check(x["canonical_uri"] == uris[fps[kk]], "index-wrong-uri", lambda: f"after {steps[-1]}: {kk} listed as {x['canonical_uri']}")
                for kk in keys:
                    fp = fps[kk]
                    on_disk = dcache.is_cached(lay, fp)
                    c.check(on_disk == (kk in model), "disk-out-of-sync", lambda: f"after {steps[-1]}: {kk} cached={on_disk}")
                    if kk not in model and kk not in stale and kk not in orphans:
                        c.check(not lay.processed_dir(fp).exists() and not lay.manifest_path(fp).exists(), "leftover-files", f"{kk}")
                kk = c.pick(keys)
                rr, oo = request(*kk)
                if kk in model:
                    c.check(same(load_dataset(rr, cache_dir=root, options=oo, download=False), model[kk]), "wrong-content", f"{kk}")
                else:
                    c.raises(DatasetNotCachedError, lambda: load_dataset(rr, cache_dir=root, options=oo, download=False), "phantom-entry", f"{kk}")
                c.count("states_compared")
    finally:
        skd.fetch_openml = old
    if any(s[0] in ("purge_fp", "purge_ds", "gc", "cli_purge", "cli_gc") for s in steps):
        c.nontrivial(steps)
    c.sample({"steps": steps})


HOSTILE = ["..", ".", "", "../manifests", "../../decoy", "a/../..", "../raw", "sub/../../raw", "*", "~", "..\\..", "toy", "\x00", " ", "../processed/{fp}", "{fp}/..", "{fp}/", "./{fp}", "{fp}x", "ABS"]


def guarded(root, fn):
    """Run fn in a forked child where any removal outside root is recorded and refused."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        bad = []
        try:
            os.close(r)
            real = os.path.realpath(root)

            def hook(ev, args):
                if ev in ("os.remove", "os.rmdir", "os.rename", "shutil.rmtree"):
                    p = args[0]
                    if isinstance(p, (str, bytes, os.PathLike)):
                        p = os.fsdecode(p)
                        fd = args[1] if ev in ("os.remove", "os.rmdir") and len(args) > 1 else -1
                        if not os.path.isabs(p) and isinstance(fd, int) and fd >= 0:
                            p = os.path.join(os.readlink(f"/proc/self/fd/{fd}"), p)
                        p = os.path.realpath(p)
                        if not p.startswith(real + "/"):
                            bad.append([ev, p])
                            raise PermissionError("refused by the harness")

            sys.addaudithook(hook)
            try:
                fn()
                out = "done"
            except Exception as e:  # noqa: BLE001
                out = f"{type(e).__name__}"
            os.write(wfd, json.dumps([out, bad]).encode())
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(r, "rb") as f:
        blob = f.read()
    os.waitpid(pid, 0)
    return json.loads(blob)


def tree(d):
    out = {}
    for b, ds, fs in os.walk(d):
        for x in fs:
            p = os.path.join(b, x)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
        for x in ds:
            out[os.path.relpath(os.path.join(b, x), d) + "/"] = None
    return out


@M.scenario(quick=60, thorough=600)
def containment(c):
    from typer.testing import CliRunner

    from modssc.cli.app import app

    w = World()
    toy, fetch, skd = sources(w)
    base = c.tmp().resolve()
    top = base / "p" / "q"
    (top / "decoy").mkdir(parents=True)
    (top / "decoy" / "keep.txt").write_text("keep")
    (top / "keep.json").write_text("{}")
    root = top / "cache"
    lay = dcache.CacheLayout(root=root)
    with dsgen.toy_source(toy):
        fps = [load_dataset("toy", cache_dir=root, options={"seed": s}).meta["dataset_fingerprint"] for s in (0, 1)]
    name = HOSTILE[c.index % len(HOSTILE)].replace("{fp}", fps[0])
    if name == "ABS":
        name = str(top / "decoy")
    via = "cli" if (c.index // len(HOSTILE)) % 3 == 1 and "\x00" not in name else ("dataset" if (c.index // len(HOSTILE)) % 3 == 2 else "fp")
    c.note = {"name": name, "via": via}
    before = tree(base)

    def act():
        if via == "fp":
            dcache.purge_fingerprint(lay, name)
        elif via == "dataset":
            dcache.purge_dataset(lay, name)
        else:
            CliRunner().invoke(app, ["datasets", "cache", "purge", name, "--fingerprint", "--cache-dir", str(root)])

    out, bad = guarded(str(top), act)
    after = tree(base)
    drop = lambda t: {k: v for k, v in t.items() if not k.endswith("index.sqlite") and "/locks" not in k}
    b, a = drop(before), drop(after)
    own = {k for k in b if fps[0] in k} if os.path.normpath(os.path.join("x", name)) == os.path.join("x", fps[0]) else set()
    changed = {k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0)} - own
    c.check(not bad, "escapes-cache", lambda: f"purge {name!r} tried {bad}")
    c.check(not changed, "purge-wrong-files", lambda: f"purge {name!r} ({via}, {out}) changed {sorted(changed)[:5]}")
    with dsgen.toy_source(toy):
        n0 = w.calls
        load_dataset("toy", cache_dir=root, options={"seed": 1})
        c.check(w.calls == n0, "other-entry-lost", f"purge {name!r} lost another entry")
    c.nontrivial([name, via])
