"""R02: what is logged never changes what is computed, and the log level asked for is the one that counts."""
import contextlib
import copy
import hashlib
import json
import logging
import os
import pickle
import random
import re
import tempfile

import numpy as np

from checks import A01, C01, G02, G04, T02, V01
from vf import auggen, benchgen as bg, gen, indm, ppgen, provreq, samp, suptab, tmeth, upstream
from vf.core import Module, short

M = Module(
    "R02",
    rule="The same request to every part of the library runs at each log level with a handler that formats every record; results, refusals, written files and the process's generators are compared, "
    "formatting errors recorded. Histories of level settings (library, environment, command line) are replayed against a model. Non-trivial: distinct (part, request shape, records emitted).",
    preload=["torch", "sklearn", "modssc.cli.app", "modssc.preprocess", "modssc.graph", "modssc.inductive", "modssc.transductive", "bench.main"],
)
LEVELS = ["none", "basic", "detailed"]
VALUE = {"none": logging.WARNING, "basic": logging.INFO, "detailed": logging.DEBUG}


class Watch(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records, self.errors = [], []

    def emit(self, record):
        try:
            record.getMessage()
        except Exception as e:  # noqa: BLE001
            self.errors.append(f"{record.name}:{record.lineno} {record.msg!r} {short(record.args)}: {type(e).__name__}: {e}")
        self.records.append((record.name, record.levelno, str(record.msg)))


@contextlib.contextmanager
def logs():
    """Fresh state of the library's loggers, with a watching handler of the user's own."""
    from modssc.runtime import logging as rl

    names = ("modssc", "bench")
    lg = [logging.getLogger(n) for n in names]
    old = [(x.level, list(x.handlers), x.propagate) for x in lg], dict(rl._HANDLERS) if hasattr(rl, "_HANDLERS") else None, logging.root.manager.disable
    raise_old = logging.raiseExceptions
    logging.disable(logging.NOTSET)
    w = Watch()
    for x in lg:
        x.handlers[:] = [w]
        x.propagate = False
    try:
        yield w
    finally:
        logging.raiseExceptions = raise_old
        logging.disable(old[2])
        for x, (lv, hs, pr) in zip(lg, old[0]):
            x.setLevel(lv)
            x.handlers[:] = hs
            x.propagate = pr
        if old[1] is not None:
            rl._HANDLERS.clear()
            rl._HANDLERS.update(old[1])


def outcome(fn):
    r = ppgen.attempt(fn)
    return r


def plain(x):
    """Digest-able form of any result."""
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    if isinstance(x, np.ndarray):
        return ["arr", str(x.dtype), list(x.shape), hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest() if x.dtype != object else repr(x.tolist())]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, "tocsr"):
        return plain(x.toarray())
    return repr(x)


def seed_all(s):
    import torch

    random.seed(s)
    np.random.seed(s)
    torch.manual_seed(s)


def tell(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return "; ".join(f"{k}: {tell(a.get(k), b.get(k))}" for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k))[:600]
    return f"{short(a, 200)} vs {short(b, 200)}"


DURATION = re.compile(r"\d+\.\d+")


def at_levels(c, part, req, key):
    """req() at every level, in random order, on the same state of the process."""
    from modssc.runtime.logging import configure_logging

    order = c.py.sample(LEVELS, 3)

    def sweep():
        res = {}
        for lv in order:
            with logs() as w:
                configure_logging(lv)
                seed_all(11)
                kind, val = outcome(req)
                res[lv] = (kind, plain(val), gen.rng_state_digest(), w.records)
                c.check(not w.errors, "log message cannot be formatted", lambda: f"{part} at {lv}: {w.errors[:3]}")
                low = [r for r in w.records if r[1] < VALUE[lv]]
                c.check(not low, "a record below the level was logged", lambda: f"{part} at {lv}: {low[:3]}")
                c.count(f"records:{lv}", len(w.records))
        return res

    res = sweep()
    if any(res[lv][:3] != res[order[0]][:3] for lv in order):
        c.count("repeated")  # the first call of a process may load libraries that touch the generators
        res = sweep()
    base = res[order[0]]
    for lv in order[1:]:
        c.check(res[lv][:2] == base[:2], "result depends on the log level", lambda: f"{part} {short(key)}: {order[0]} {base[0]} / {lv} {res[lv][0]}: {tell(base[1], res[lv][1])}")
        c.check(res[lv][2] == base[2], "generators depend on the log level", lambda: f"{part} {short(key)}: {order[0]} / {lv}")
    for lo, hi in (("none", "basic"), ("basic", "detailed")):
        lost = [r for r in res[lo][3] if r not in res[hi][3]]
        c.check(not lost, "a more detailed level keeps every message", lambda: f"{part} {short(key)}: {lo} logs {lost[:3]}, {hi} does not")
    c.count("part:" + part)
    c.nontrivial((part, key, base[0], len(res["detailed"][3])))


@M.scenario(quick=120, thorough=3000)
def sampling(c):
    from modssc.sampling import sample, save_split

    ds, info = samp.dataset(c)
    p = samp.plan(c, info["n"])
    seed = c.py.randrange(1000)
    save = c.chance(0.4)

    def req():
        with tempfile.TemporaryDirectory() as t:
            r, path = sample(copy.deepcopy(ds), plan=p, seed=seed, save=save, cache_root=__import__("pathlib").Path(t))
            return [samp.parts_of(r), {k: v for k, v in vars(r).items() if k != "created_at"}, path is None]

    at_levels(c, "sampling", req, (info.get("label"), info["graph"], p.split.__class__.__name__, p.labeling.mode))


@M.scenario(quick=100, thorough=3000)
def preprocessing(c):
    from modssc.preprocess import preprocess

    mod = c.pick(["tabular", "text", "vision", "audio", "graph"])
    ds = ppgen.dataset(c, mod)
    ds = ds[0] if isinstance(ds, tuple) else ds
    p = ppgen.plan(c, mod)
    n = len(ds.train.y)
    fi = c.rng.permutation(n)[: max(1, n // 2)]
    cache = c.chance(0.5)

    def req():
        with tempfile.TemporaryDirectory() as t:
            out = []
            for _ in range(2 if cache else 1):
                r = preprocess(copy.deepcopy(ds), p, fit_indices=fi, seed=3, cache=cache, cache_dir=t if cache else None)
                out.append(ppgen.view(r))
            return out

    at_levels(c, "preprocess", req, (mod, cache, [s.step_id for s in p.steps]))


@M.scenario(quick=120, thorough=3000)
def graphs(c):
    from modssc.graph import build_graph, graph_to_views

    if c.chance(0.6):
        n, d = c.py.randint(4, 24), c.py.randint(1, 5)
        X = G02.points(c, n, d)
        s = G02.spec(c)
        seed, cache, shard = c.py.randrange(99), c.chance(0.5), c.pick([None, 3])

        def req():
            with tempfile.TemporaryDirectory() as t:
                g = [build_graph(X.copy(), spec=s, seed=seed, cache=cache, cache_dir=t if cache else None, edge_shard_size=shard if cache else None) for _ in range(2)]
                return [[x.edge_index, x.edge_weight, x.n_nodes, x.meta] for x in g]

        key = (s.scheme, s.metric, cache)
    else:
        n = c.py.randint(2, 12)
        g, _ = G04.graph(c, n)
        ds, fs, seed = G04.node_ds(c, n, g), G04.spec(c), c.py.randrange(99)
        cache = c.chance(0.4)

        def req():
            with tempfile.TemporaryDirectory() as t:
                o = graph_to_views(copy.deepcopy(ds), spec=fs, seed=seed, cache=cache, cache_dir=t if cache else None)
                return [o.views, o.y, o.masks]

        key = ("views", fs.views, cache)
    at_levels(c, "graph", req, key)


@M.scenario(quick=60, thorough=1500)
def feature_views(c):
    from modssc.data_loader.types import LoadedDataset, Split
    from modssc.views import ViewsPlan, generate_views

    d = c.py.randint(2, 12)
    n = c.py.randint(3, 9)
    ds = LoadedDataset(train=Split(X=c.rng.normal(size=(n, d)), y=np.arange(n)), test=Split(X=c.rng.normal(size=(3, d)), y=np.arange(3)) if c.chance(0.5) else None, meta={"dataset_fingerprint": "p", "modality": "tabular"})
    plan = ViewsPlan(views=tuple(V01.specs(c, d, c.py.randint(1, 4))))
    seed = c.py.randrange(99)

    def req():
        r = generate_views(copy.deepcopy(ds), plan=plan, seed=seed, cache=False)
        return [r.columns, {k: [v.train.X, None if v.test is None else v.test.X] for k, v in r.views.items()}]

    at_levels(c, "views", req, [v.columns.mode if v.columns else None for v in plan.views])


@M.scenario(quick=80, thorough=1500)
def supervised(c):
    table = suptab.ALL
    cid, be = table[c.index % len(table)]
    p = suptab.params(c, cid, be)
    X, y, codes, kind, Q = C01.problem(c, cid, be)

    def req():
        clf = C01.fit(cid, be, p, copy.deepcopy(X), y, seed=4)
        out = [clf.predict(suptab.wrap(copy.deepcopy(Q), cid, be))]
        if clf.supports_proba:
            out.append(clf.predict_proba(suptab.wrap(copy.deepcopy(Q), cid, be)))
        return out

    at_levels(c, "supervised", req, (cid, be, kind))


@M.scenario(quick=56, thorough=1200)
def inductive(c):
    mids = list(indm.ALL) if hasattr(indm, "ALL") else list(indm.CLASSIC) + list(indm.DEEP)
    d = indm.describe(c, mids[c.index % len(mids)])
    at_levels(c, "inductive", lambda: indm.run_or_refuse(d, between=c.index % 3 == 0), (d["mid"], d.get("shape"), d.get("kind")))


@M.scenario(quick=92, thorough=1500)
def transductive(c):
    mids = list(tmeth.ALL)
    mid = mids[c.index % len(mids)]
    d, k, v = T02.dataset(c, mid)
    seed = c.py.randrange(99)

    def req():
        m = tmeth.method(mid)
        m.fit(copy.deepcopy(d), device=None, seed=seed)
        return m.predict_proba(copy.deepcopy(d))

    at_levels(c, "transductive", req, (mid, bool(v.any())))


@M.scenario(quick=60, thorough=1500)
def augmentation(c):
    from modssc.data_augmentation import build_pipeline

    kind = c.pick(list(auggen.OPS))
    backend = "numpy" if kind == "text" else c.pick(["numpy", "torch"])
    plan = auggen.random_plan(c, kind)
    x = auggen.make_input(c, kind, backend)
    ctxs = A01.contexts(c, 3)
    at_levels(c, "augmentation", lambda: [auggen.plain(build_pipeline(plan).apply(copy.deepcopy(x), ctx=k)) for k in ctxs], (kind, backend, [s.op_id for s in plan.steps]))


@M.scenario(quick=50, thorough=1000)
def data_loading(c):
    from modssc.data_loader import dataset_info, load_dataset  # noqa: F401

    prov, ref, o = provreq.request(c)

    def req():
        with tempfile.TemporaryDirectory() as t, upstream.installed(upstream.Up()):
            out = []
            for kw in ({"download": True}, {"download": c.index % 2 == 0}, {"download": True, "force": True}):
                from pathlib import Path

                ds = load_dataset(ref, cache_dir=Path(t), options=dict(o), **kw)
                out.append(provreq.norm(ds, t))
            return out

    at_levels(c, "data loader", req, (prov, sorted(o)))


@M.scenario(quick=24, thorough=300)
def bench_runs(c):
    from modssc.runtime.logging import configure_logging
    from vf import benchprobe as bp

    def once(lv):
        c2 = type(c)(c.prop, c.scenario, c.index, c.seed, c.tier, c.stats)
        try:
            with bg.sandbox(c2) as root:
                kind, w, ds, cfg = bg.experiment(c2, root)
                configure_logging(lv)
                with bp.registered() as log:
                    seed_all(5)
                    code, new = bg.run(cfg, ds, root)
                    o = bg.outcome(code, new, log)
                return kind, json.loads(json.dumps(o, default=str).replace(str(root), "ROOT"))
        finally:
            c2.cleanup()

    res = {}
    order = c.py.sample(LEVELS, 2)
    for lv in order:
        with logs() as w:
            kind, res[lv] = once(lv)
            c.check(not w.errors, "log message cannot be formatted", lambda: f"bench at {lv}: {w.errors[:3]}")
            low = [r for r in w.records if r[1] < VALUE[lv]]
            c.check(not low, "a record below the level was logged", lambda: f"bench {kind} at {lv}: {low[:3]}")
            c.count(f"records:{lv}", len(w.records))
    a, b = (res[lv] for lv in order)
    if not bg.same(a, b):  # the scratch folder is part of what a configuration is hashed from
        drop = ("run_id", "hashes")
        a, b = ({k: v for k, v in x.items() if k not in drop} for x in (a, b))
    c.check(bg.same(a, b), "result depends on the log level", lambda: f"bench {kind} {order}: {tell(a, b)}")
    c.nontrivial((kind, order, a.get("status")))


@M.scenario(quick=24, thorough=300)
def bench_level(c):
    """Option, then configuration, then environment; a benchmark run logs at least its progress."""
    import sys

    import bench.main as bm
    from vf import benchprobe as bp

    with bg.sandbox(c) as root, logs() as w:
        kind, _, ds, cfg = bg.experiment(c, root, kind="probe")
        opt, conf, env = (c.pick([None, *LEVELS]) for _ in range(3))
        bmode = c.chance(0.3)
        if conf:
            cfg["run"]["log_level"] = spelled(c, conf).strip()
        if bmode:
            cfg["run"].update(benchmark_mode=True, fail_fast=True)
        want = opt or conf or env or "none"
        if bmode and want == "none":
            want = "basic"
        bad = c.chance(0.1)
        argv, old_env = sys.argv, os.environ.pop("MODSSC_LOG_LEVEL", None)
        sys.argv = ["bench", "--config", str(bg.write(cfg, root))] + (["--log-level", "loud" if bad else spelled(c, opt)] if opt or bad else [])
        if env:
            os.environ["MODSSC_LOG_LEVEL"] = spelled(c, env)
        try:
            with bp.registered(), bg.source(ds):
                try:
                    code = bm.main()
                except SystemExit as e:
                    code = e.code
                except Exception as e:  # noqa: BLE001
                    code = e
        finally:
            sys.argv = argv
            os.environ.pop("MODSSC_LOG_LEVEL", None)
            if old_env is not None:
                os.environ["MODSSC_LOG_LEVEL"] = old_env
        if bad:
            c.check(code not in (0, None), "unknown level refused by the runner", short(code))
            return
        lv = [logging.getLogger(n).level for n in ("modssc", "bench")]
        c.check(lv == [VALUE[want]] * 2, "level of a bench run", lambda: f"{short(code)} option {opt} config {conf} environment {env} benchmark_mode {bmode}: {lv}, expected {want}")
        c.check(not w.errors, "log message cannot be formatted", lambda: str(w.errors[:3]))
        c.nontrivial((opt, conf, env, bmode))


# ---- the level itself -------------------------------------------------------------------------------------------
ALIAS = {"quiet": "none", "full": "detailed"}


def spelled(c, lv):
    s = c.pick([lv] + [a for a, t in ALIAS.items() if t == lv])
    return c.pick([s, s.upper(), s.capitalize(), f" {s} "])


@M.scenario(quick=150, thorough=4000)
def level_history(c):
    """The last level set is the level; each message comes out once; handlers of the user stay."""
    from modssc.runtime import logging as rl

    with logs() as w:
        own = c.chance(0.4)
        lgs = {n: logging.getLogger(n) for n in ("modssc", "bench")}
        users = {}
        for n, x in lgs.items():
            x.handlers[:] = []
            if own:
                users[n] = Watch()
                x.addHandler(users[n])
        import io
        import sys

        err, old = io.StringIO(), sys.stderr
        sys.stderr = err
        trace = []
        rooted = None
        if not own and c.chance(0.5):  # an application that has set up logging of its own at the root
            rooted = logging.StreamHandler(err)
            rooted.setFormatter(logging.Formatter("root: %(message)s"))
            logging.root.addHandler(rooted)
        try:
            for x in lgs.values():
                x.propagate = not own
            rl._HANDLERS.clear()
            cur = None
            for _ in range(c.py.randint(1, 8)):
                what = c.pick(["set", "set", "set", "bad", "fmt", "emit"])
                if what in ("set", "fmt"):
                    lv = c.pick(LEVELS)
                    sp = spelled(c, lv)
                    trace.append(sp)
                    rl.configure_logging(sp, **({"fmt": "<<%(message)s>>"} if what == "fmt" else {}))
                    cur = (lv, what == "fmt")
                elif what == "bad":
                    bad = c.pick(["", "loud", "debug", "INFO", "nonee", "-1"])
                    trace.append(bad)
                    c.raises(ValueError, lambda: rl.configure_logging(bad), "unknown level refused", bad)
                elif cur:
                    name = c.pick(["modssc", "modssc.a.b", "bench", "bench.x"])
                    for meth, val in (("debug", 10), ("info", 20), ("warning", 30), ("error", 40)):
                        err.truncate(0), err.seek(0)
                        for u in users.values():
                            u.records.clear()
                        tok = f"tok{c.py.randrange(10**9)}"
                        getattr(logging.getLogger(name), meth)("%s", tok)
                        n = err.getvalue().count(tok)
                        top = name.split(".")[0]
                        got = len(users[top].records) if own else n
                        want = int(val >= VALUE[cur[0]])
                        c.check(got == want and (not own or n == 0 or True), "message logged once, at its level", lambda: f"{name} {meth} after {trace}: {got} times, expected {want}: {err.getvalue()!r}")
                        if not own and want and cur[1]:
                            c.check(f"<<{tok}>>" in err.getvalue(), "format taken", lambda: f"{trace}: {err.getvalue()!r}")
                        if not own and want and not cur[1]:
                            c.check((":" in err.getvalue().split(tok)[0]) and "<<" not in err.getvalue(), "format of the level", lambda: f"{trace}: {err.getvalue()!r}")
                            c.check((".py:" in err.getvalue()) == (cur[0] == "detailed"), "detailed format says where", lambda: f"{trace}: {err.getvalue()!r}")
                        c.count("messages")
                if cur:
                    for n, x in lgs.items():
                        c.check(x.level == VALUE[cur[0]], "last level wins", lambda: f"{n} after {trace}: {x.level}")
                        c.check(not own or users[n] in x.handlers, "handlers of the user stay", str(trace))
                        c.check(len(x.handlers) == 1, "one handler", lambda: f"{n} after {trace}: {x.handlers}")
        finally:
            sys.stderr = old
            if rooted is not None:
                logging.root.removeHandler(rooted)
        c.nontrivial((own, rooted is not None, [t.strip().lower() for t in trace]))


@M.scenario(quick=80, thorough=2000)
def environment(c):
    from modssc.runtime.logging import normalize_log_level, resolve_log_level

    old = os.environ.pop("MODSSC_LOG_LEVEL", None)
    try:
        lv, ev = c.pick(LEVELS), c.pick(LEVELS)
        given = c.pick([None, "", "  ", spelled(c, lv), spelled(c, lv)])
        env = c.pick([None, "", spelled(c, ev), "loud"])
        if env is not None:
            os.environ["MODSSC_LOG_LEVEL"] = env
        asked = given is not None and given.strip()
        if asked:
            want = lv
        elif env:
            want = "error" if env == "loud" else ev
        else:
            want = "none"
        k, v = "ok", None
        try:
            v = resolve_log_level(given)
        except ValueError as e:
            k, v = "error", e
        c.check((v if k == "ok" else "error") == want, "level resolved from option, then environment", lambda: f"{given!r} env {env!r}: {v} expected {want}")
        c.check(normalize_log_level(spelled(c, lv)) == lv, "level spelling", lv)
        c.nontrivial((bool(asked), lv, env and env.strip().lower()))
    finally:
        os.environ.pop("MODSSC_LOG_LEVEL", None)
        if old is not None:
            os.environ["MODSSC_LOG_LEVEL"] = old


COMMANDS = [["datasets", "providers"], ["datasets", "list"], ["supervised", "list"], ["inductive", "methods", "list"], ["transductive", "methods", "list"], ["augmentation", "list"], ["preprocess", "steps", "list"],
            ["preprocess", "models", "list"], ["evaluation", "list"], ["datasets", "info", "--dataset", "toy"], ["doctor"]]


@M.scenario(quick=60, thorough=1000)
def command_line(c):
    """The level counts wherever the option stands (the innermost wins), and never shows in what a command prints."""
    import modssc.runtime.logging as rl
    from modssc.cli.app import app
    from typer.testing import CliRunner

    old = os.environ.pop("MODSSC_LOG_LEVEL", None)
    try:
        with logs():
            runner = CliRunner()
            cmd = c.pick(COMMANDS)
            plain_run = runner.invoke(app, cmd)
            if plain_run.exit_code != 0:
                c.count("command_unavailable:" + " ".join(cmd))
                return
            want = "none"
            env = c.pick([None, None, c.pick(LEVELS)])
            if env:
                os.environ["MODSSC_LOG_LEVEL"] = env
                want = env
            top = c.pick([None, c.pick(LEVELS)])
            grp = c.pick([None, None, c.pick(LEVELS)]) if len(cmd) > 1 else None
            bad = c.chance(0.15)
            args = []
            opt = c.pick(["--log-level", "--log"])
            if top:
                args += [opt, spelled(c, top).strip()]
                want = top
            args.append(cmd[0])
            if grp:
                args += [opt, spelled(c, grp).strip()]
                want = grp
            args += cmd[1:]
            if bad:
                args = [opt, "loud"] + cmd
                r = runner.invoke(app, args)
                c.check(r.exit_code != 0, "unknown level refused by the command line", str(args))
                return
            r = runner.invoke(app, args)
            c.check(r.exit_code == 0, "command runs at any level", lambda: f"{args}: {r.output[-500:]}")
            c.check(r.stdout == plain_run.stdout, "what a command prints depends on the log level", lambda: f"{args} env {env}: {r.stdout[:300]!r} vs {plain_run.stdout[:300]!r}")
            lv = logging.getLogger("modssc").level
            c.check(lv == VALUE[want], "level of the innermost option counts", lambda: f"{args} env {env}: {lv}, expected {want}")
            c.nontrivial((cmd, top, grp, env))
            assert rl
    finally:
        os.environ.pop("MODSSC_LOG_LEVEL", None)
        if old is not None:
            os.environ["MODSSC_LOG_LEVEL"] = old


@M.scenario(quick=40, thorough=500)
def commands_at_levels(c):
    """A command writes and prints the same at every level."""
    from checks.K01 import tree
    from modssc.cli.app import app
    from typer.testing import CliRunner

    job = c.pick(["sampling", "preprocess", "graph", "views", "download"])
    order = c.py.sample(LEVELS, 2)
    res = []
    for lv in order:
        c2 = type(c)(c.prop, c.scenario, c.index, c.seed, c.tier, c.stats)
        try:
            with bg.sandbox(c2) as root, logs() as w:
                wd, ds = bg.world(c2, kinds=("tab",), labels=("int", "gap"))
                plan = bg.sampling_plan(c2, wd) if job == "sampling" else bg.preprocess_plan(c2, wd)
                (root / "plan.json").write_text(json.dumps(plan))
                data = ["--dataset", "toy", "--dataset-cache-dir", str(root / "ds")]
                cmd = {
                    "sampling": [["sampling", "create", *data, "--plan", str(root / "plan.json"), "--seed", "3", "--out", str(root / "split")], ["sampling", "show", str(root / "split")]],
                    "preprocess": [["preprocess", "run", "--plan", str(root / "plan.json"), *data, "--seed", "3"]],
                    "graph": [["graph", "build", *data, "--seed", "3", "--k", "3"]],
                    "views": [["graph", "views", "build", *data, "--seed", "3"]],
                    "download": [["datasets", "download", "--dataset", "toy", "--cache-dir", str(root / "ds")], ["datasets", "cache", "ls", "--cache-dir", str(root / "ds")]],
                }[job]
                outs = []
                with bg.source(ds):
                    for x in cmd:
                        seed_all(5)
                        r = CliRunner().invoke(app, ["--log-level", lv] + x)
                        text = re.sub(r"\d{4}-\d\d-\d\dT[\d:.+Z]+", "TIME", r.stdout.replace(str(root), "ROOT"))
                        outs.append((r.exit_code, text, type(r.exception).__name__))
                c.check(not w.errors, "log message cannot be formatted", lambda: f"{job} at {lv}: {w.errors[:3]}")
                c.count(f"records:{lv}", len(w.records))
                files = {k: v for k, v in tree(root / "cache").items() if not k.endswith((".sqlite", "manifest.json", ".json", ".lock"))}
                files.update({"split/" + k: v for k, v in tree(root / "split").items() if not k.endswith(".json")})
                res.append((outs, {k: hashlib.sha256(v).hexdigest() for k, v in files.items()}))
        finally:
            c2.cleanup()
    a, b = res
    c.check(a[0] == b[0], "what a command prints depends on the log level", lambda: f"{job} {order}: {short(a[0])} vs {short(b[0])}")
    c.check(a[1] == b[1], "what a command writes depends on the log level", lambda: f"{job} {order}: {sorted(set(a[1].items()) ^ set(b[1].items()))[:4]}")
    c.nontrivial((job, order, [x[0] for x in a[0]]))
