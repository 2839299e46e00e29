"""D03: concurrent loads of one dataset build the cache entry exclusively and all get the right data."""
import json
import os
import signal
import sys
import threading
import time

import numpy as np
from modssc.data_loader import download_dataset, load_dataset
from modssc.data_loader import cache as dcache
from modssc.data_loader.types import LoadedDataset, Split

from vf import crash, dsgen, gen
from vf.core import Inconclusive, Module, short

M = Module(
    "D03",
    rule="2-6 processes or threads load (some force-refresh) one or two datasets from one cache folder at the same time, with "
    "random delays injected at file operations and inside the source, and in some cases one worker killed at a random file "
    "operation. A log of source loads and cache writes is checked offline for overlapping builds. Non-trivial: executions in "
    "which at least two workers were inside the loader at once; distinct observed event orders are counted.",
    workers=4,
)


def content(seed):
    r = np.random.default_rng(seed)
    n = 20 + seed % 5
    return LoadedDataset(train=Split(X=r.normal(size=(n, 3)), y=r.integers(0, 3, size=n)),
                         test=Split(X=r.normal(size=(5, 3)), y=r.integers(0, 3, size=5)), meta={"s": seed})


def right(ds, seed):
    w = content(seed)
    return all(gen.arr_eq(np.asarray(a), b) for a, b in ((ds.train.X, w.train.X), (ds.train.y, w.train.y), (ds.test.X, w.test.X), (ds.test.y, w.test.y)))


class Log:
    """Append-only event log shared by processes and threads (O_APPEND writes are atomic)."""

    def __init__(self, path):
        self.path = str(path)
        self.fd = os.open(self.path, os.O_CREAT | os.O_WRONLY | os.O_APPEND)

    def add(self, who, ev, obj):
        os.write(self.fd, (json.dumps([time.monotonic_ns(), who, ev, obj]) + "\n").encode())

    def read(self):
        with open(self.path) as f:
            return [json.loads(x) for x in f if x.strip()]


_hook = {"fn": None}
_installed = False


def install_hook():
    """One audit hook per (forked) process: reports and delays cache writes below the root."""
    def hook(event, args):
        fn = _hook["fn"]
        if fn is not None and event in ("open", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "sqlite3.connect"):
            r = crash.classify(event, args)
            if r is not None:
                fn(*r)

    sys.addaudithook(hook)


def body(who, root, seed, force, log, delays, kill_at, start):
    """One loader; runs in a forked process or a thread."""
    st = {"n": 0}
    rng = np.random.default_rng(delays)
    rootr = os.path.realpath(root)

    def on_fs(kind, path):
        if not path.startswith(rootr):
            return
        k = st["n"]
        st["n"] += 1
        if kill_at is not None and k == kill_at:
            log.add(who, "killed", seed)
            os._exit(77)
        rel = os.path.relpath(path, rootr)
        if rel.startswith("processed/"):
            log.add(who, "write", rel.split("/")[1])
        if rng.random() < 0.4:
            time.sleep(rng.random() * 0.004)

    _hook["fn"] = on_fs if threading.current_thread() is threading.main_thread() else None
    log.add(who, "call", seed)
    start()
    try:
        ds = (download_dataset if force else load_dataset)("toy", cache_dir=root, options={"seed": seed}, **({"force": True} if force else {}))
        log.add(who, "ok" if right(ds, seed) else "wrong", seed)
    except Exception as e:  # noqa: BLE001
        log.add(who, f"error:{type(e).__name__}: {e}"[:300], seed)
    finally:
        _hook["fn"] = None


def run_group(c, mode, workers, root, log, sleep_s):
    who_of = threading.local()

    def source(identity, raw_dir):
        seed = identity.resolved_kwargs["seed"]
        who = getattr(who_of, "w", None)
        log.add(who, "build", seed)
        time.sleep(sleep_s * (0.5 + (seed % 3)))
        d = content(seed)
        log.add(who, "built", seed)
        return d

    with dsgen.toy_source(source):
        if mode == "threads":
            barrier = threading.Barrier(len(workers))
            ths = []
            for w in workers:
                def go(w=w):
                    who_of.w = w["who"]
                    body(w["who"], root, w["seed"], w["force"], log, w["delays"], None, barrier.wait)
                ths.append(threading.Thread(target=go))
            [t.start() for t in ths]
            for t in ths:
                t.join(120)
                if t.is_alive():
                    raise Inconclusive("loader thread still waiting after 120 s")
        else:
            rfd, wfd = os.pipe()
            pids = []
            for w in workers:
                pid = os.fork()
                if pid == 0:
                    try:
                        signal.alarm(0)
                        os.close(wfd)
                        install_hook()
                        who_of.w = w["who"]
                        body(w["who"], root, w["seed"], w["force"], log, w["delays"], w["kill_at"], lambda: os.read(rfd, 1))
                    finally:
                        os._exit(0)
                pids.append(pid)
            os.close(rfd)
            time.sleep(0.01)
            os.close(wfd)  # EOF releases everybody at once
            deadline = time.time() + 150
            left = set(pids)
            while left and time.time() < deadline:
                for p in list(left):
                    if os.waitpid(p, os.WNOHANG)[0]:
                        left.discard(p)
                time.sleep(0.002)
            if left:
                for p in left:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                raise Inconclusive("a loader process was still waiting after 150 s")


def judge(c, events, workers, fps, exclusive_errors_ok=False):
    killed = {w for _, w, e, _ in events if e == "killed"}
    outcome = {}
    for _, w, e, s in events:
        if e in ("ok", "wrong") or e.startswith("error"):
            outcome[w] = (e, s)
    for w in workers:
        if w["who"] in killed:
            continue
        c.check(w["who"] in outcome, "loader-vanished", f"worker {w['who']} has no outcome")
        e, s = outcome[w["who"]]
        c.check(e != "wrong", "wrong-data", f"worker {w['who']} got other data than the source's for seed {s}")
        c.check(e == "ok", "loader-error", f"worker {w['who']}: {e}")
        c.count("loads_completed")
    # exclusive builds: [first source event, last cache write] intervals of one dataset are disjoint
    for seed in {w["seed"] for w in workers}:
        spans = {}
        for t, w, e, o in events:
            if (e in ("build", "built") and o == seed) or (e == "write" and o == fps[seed]):
                if e == "write" and w not in spans and not any(e2 == "build" and w2 == w for _, w2, e2, _ in events):
                    continue
                a = spans.setdefault(w, [t, t])
                a[0], a[1] = min(a[0], t), max(a[1], t)
        builds = [w for _, w, e, o in events if e == "build" and o == seed]
        c.count("builds_observed", len(builds))
        order = sorted(spans.items(), key=lambda kv: kv[1][0])
        for (w1, s1), (w2, s2) in zip(order, order[1:]):
            c.check(s1[1] <= s2[0], "overlapping-builds", f"workers {w1} and {w2} were building seed {seed} at the same time")
        forced = sum(1 for w in workers if w["seed"] == seed and w["force"])
        kb = sum(1 for w in workers if w["seed"] == seed and w["who"] in killed)
        limit = forced + kb + (1 if any(w["seed"] == seed and not w["force"] for w in workers) else 0)
        c.check(len(builds) <= limit, "rebuilt", f"seed {seed} fetched {len(builds)} times by {len(workers)} workers ({forced} forced, {kb} killed)")


@M.scenario(quick=70, thorough=1200)
def concurrent(c):
    mode = c.pick(["procs", "procs", "threads"])
    root = c.tmp() / "cache"
    root.mkdir()
    log = Log(root.parent / "log")
    k = c.py.randint(2, 6)
    seeds = [1] if c.chance(0.7) else [1, 2]
    kill = mode == "procs" and c.chance(0.35)
    workers = [{"who": i, "seed": c.pick(seeds), "force": False, "delays": c.py.randrange(10**6),
                "kill_at": c.py.randrange(4, 26) if (kill and i == 0) else None} for i in range(k)]
    all_force = c.chance(0.15)
    if all_force:
        for w in workers:
            w["force"] = True
    if c.chance(0.2):  # a stale lock file left by a dead process must not block anyone
        lay = dcache.CacheLayout(root=root.resolve())
        dcache.ensure_layout(lay)
    with dsgen.toy_source(lambda i, r: content(i.resolved_kwargs["seed"])):
        fps = {}
        side = c.tmp()
        for s in seeds:
            fps[s] = load_dataset("toy", cache_dir=side, options={"seed": s}).meta["dataset_fingerprint"]
    c.note = {"mode": mode, "workers": workers}
    run_group(c, mode, workers, root, log, sleep_s=c.pick([0.0, 0.003, 0.01]))
    ev = log.read()
    judge(c, ev, workers, fps)
    # afterwards the cache serves the right data without the source, and is not locked
    with dsgen.toy_source(lambda i, r: content(i.resolved_kwargs["seed"])):
        for s in seeds:
            # a forced refresh killed half-way legitimately leaves no entry behind
            if any(e == "ok" and o == s for _, _, e, o in ev) and not (all_force and kill):
                got = load_dataset("toy", cache_dir=root, options={"seed": s}, download=False)
                c.check(right(got, s), "wrong-data", "cache content after concurrent loads")
            got = load_dataset("toy", cache_dir=root, options={"seed": s}, force=True)
            c.check(right(got, s), "wrong-data", "forced load afterwards")
    os.close(log.fd)
    calls = [t for t, _, e, _ in ev if e == "call"]
    ends = [t for t, _, e, _ in ev if e in ("ok", "wrong") or e.startswith("error")]
    if ends and max(calls) < max(ends) and len(calls) >= 2:
        c.nontrivial([(w, e) for _, w, e, _ in ev])
    c.count("events_logged", len(ev))
    if kill:
        c.count("killed_workers", sum(e == "killed" for _, _, e, _ in ev))
    c.sample({"mode": mode, "workers": len(workers), "events": [[w, e, o if isinstance(o, int) else "fp"] for _, w, e, o in ev][:30]})
