"""D04: the dataset fingerprint identifies the content: a shared cache never serves another request's data."""
from modssc.data_loader import load_dataset

from vf import provreq, upstream, xproc
from vf.core import Module, short

M = Module(
    "D04",
    rule="Random request pairs and histories over all seven providers (upstream libraries replaced by deterministic stand-ins), "
    "loaded into private and shared caches. Oracle: what a fresh private cache returns for the same request. Non-trivial: "
    "request pairs that differ in content.",
    preload=["torch_geometric.datasets", "torchvision.datasets", "torchaudio.datasets", "datasets"],
)


def shuffled(c, o):
    ks = list(o)
    c.py.shuffle(ks)
    return {k: o[k] for k in ks}


def same_meaning(c, o):
    """Another spelling of the same options."""
    o = shuffled(c, o)
    if isinstance(o.get("class_filter"), list):
        o["class_filter"] = tuple(o["class_filter"])
    elif isinstance(o.get("class_filter"), (int, str)):
        o["class_filter"] = [o["class_filter"]]
    return o


def mutate(c, prov, ref, o):
    """A request close to this one."""
    for _ in range(60):
        p2, r2, o2 = provreq.request(c)
        if p2 != prov:
            continue
        if c.chance(0.6) or not o2:
            r2 = ref
            base = dict(o)
            if o2 and c.chance(0.8):
                k = c.pick(list(o2))
                if k == "config" and "/" in r2:
                    continue
                base[k] = o2[k]
            elif base:
                base.pop(c.pick(list(base)))
            o2 = base
        return r2, o2
    return ref, shuffled(c, o)


@M.scenario(quick=260, thorough=5000)
def pairs(c):
    prov, ref, o = provreq.request(c)
    with upstream.installed(upstream.Up()):
        reqs = [(ref, o)] + [mutate(c, prov, ref, o) for _ in range(3)]
        c.note = {"requests": reqs}
        fresh = []
        for r, oo in reqs:
            root = c.tmp()
            ds = load_dataset(r, cache_dir=root, options=oo)
            fresh.append((provreq.norm(ds, root), ds.meta["dataset_fingerprint"]))
        # any two requests with different content have different fingerprints
        for i in range(len(reqs)):
            for j in range(i):
                if fresh[i][0] != fresh[j][0]:
                    c.check(fresh[i][1] != fresh[j][1], "fingerprint-collision", lambda: f"{reqs[i]} and {reqs[j]} have different content and one fingerprint")
                    c.nontrivial([prov, fresh[i][1], fresh[j][1]])
                c.count("pairs_compared")
        # the same request in another spelling, order or cache folder has the same fingerprint
        for (r, oo), (n, fp) in zip(reqs, fresh):
            root = c.tmp()
            ds = load_dataset(r, cache_dir=root, options=same_meaning(c, oo))
            c.check(ds.meta["dataset_fingerprint"] == fp, "fingerprint-unstable", lambda: f"{r} {oo}")
            c.check(provreq.norm(ds, root) == n, "content-unstable", lambda: f"{r} {oo}")
        # one shared cache, any order: every load returns the request's own content
        root = c.tmp()
        for _ in range(8):
            k = c.py.randrange(len(reqs))
            r, oo = reqs[k]
            kw = {"force": True} if c.chance(0.2) else {}
            ds = load_dataset(r, cache_dir=root, options=shuffled(c, oo), **kw)
            c.check(provreq.norm(ds, root) == fresh[k][0], "wrong-content", lambda: f"{r} {oo} from a shared cache")
            c.check(ds.meta["dataset_fingerprint"] == fresh[k][1], "fingerprint-unstable", "shared cache")
            c.count("shared_loads")
    c.sample({"provider": prov, "requests": short(reqs, 400)})


def remote(p):
    import tempfile
    from pathlib import Path

    from modssc.data_loader import load_dataset as ld
    out = []
    with upstream.installed(upstream.Up()), tempfile.TemporaryDirectory() as d:
        for r, o in p:
            ds = ld(r, cache_dir=Path(d), options=o)
            out.append([ds.meta["dataset_fingerprint"], provreq.norm(ds, d)])
    return out


@M.scenario(quick=5, thorough=60)
def cross_process(c):
    import json

    reqs = []
    while len(reqs) < 12:
        _, r, o = provreq.request(c)
        reqs.append((r, {k: list(v) if isinstance(v, tuple) else v for k, v in o.items()}))
    other = xproc.fresh_process("checks.D04", "remote", reqs)
    here = json.loads(json.dumps(remote(reqs)))
    for q, a, b in zip(reqs, here, other):
        c.check(a[0] == b[0], "fingerprint-process", lambda: f"{q}")
        c.check(a[1] == b[1], "content-process", lambda: f"{q}")
        c.nontrivial([a[0]])
        c.count("cross_process_requests")
