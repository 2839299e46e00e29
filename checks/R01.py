"""R01: every registry resolves exactly what it lists, whatever was registered and looked up before, in whatever order."""
import dataclasses
import importlib
import os
import pickle
import pkgutil
import sys
import types

import numpy as np

from vf.core import Inconclusive, Module, Violation, short

M = Module(
    "R01",
    rule="In a forked process with freshly imported modssc, generated histories of registrations (new, same again, conflicting, malformed), listings and look-ups run against a "
    "dictionary model of each registry; every listed id is resolved and asked for its own id; every component class found in the package is listed. Non-trivial: distinct (registry, history shape or id).",
    preload=["torch", "sklearn", "scipy.sparse", "modssc.inductive", "modssc.transductive", "modssc.supervised", "modssc.preprocess", "modssc.data_augmentation", "modssc.data_loader", "modssc.evaluation"],
)


def child(c, fn):
    """Run fn() in a forked child that re-imports modssc, hand back its verdict."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            for k in [k for k in sys.modules if k == "modssc" or k.startswith("modssc.")]:
                del sys.modules[k]
            before = dict(c.stats.counts)
            try:
                res = ("ok", fn())
            except Violation as v:
                res = ("violation", v.mechanism, v.message)
            except Exception as e:  # noqa: BLE001
                import traceback

                res = ("error", type(e).__name__, traceback.format_exc()[-3000:])
            d = {k: v - before.get(k, 0) for k, v in c.stats.counts.items()}
            os.write(w, pickle.dumps((res, d)))
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise Inconclusive("child wrote nothing")
    res, d = pickle.loads(buf)
    for k, v in d.items():
        c.count(k, v)
    if res[0] == "violation":
        c.fail(res[1], res[2])
    if res[0] == "error":
        if "/src/modssc/" in res[2]:
            c.fail(f"unexpected {res[1]}", res[2])
        raise Inconclusive(res[2])
    return res[1]


def attempt(fn):
    try:
        return "ok", fn()
    except Exception as e:  # noqa: BLE001
        return type(e).__name__, e


PATHS = {}


def class_path(cls):
    return f"{cls.__module__}:{cls.__qualname__}"


def method_paths(kind):
    """import path of each builtin, taken from the classes the package defines (not from the registry)."""
    if kind not in PATHS:
        pk = importlib.import_module(f"modssc.{kind}.methods")
        info_cls = importlib.import_module(f"modssc.{kind}.registry").MethodInfo
        out = {}
        for m in pkgutil.walk_packages(pk.__path__, pk.__name__ + "."):
            mod = importlib.import_module(m.name)
            for cls in vars(mod).values():
                info = isinstance(cls, type) and cls.__module__ == mod.__name__ and vars(cls).get("info")
                if isinstance(info, info_cls):
                    out.setdefault(info.method_id, set()).add(class_path(cls))
        PATHS[kind] = out
    return PATHS[kind]


def method_listing(c, kind):
    reg = importlib.import_module(f"modssc.{kind}")
    got = reg.available_methods(available_only=False)
    c.check(got == sorted(set(got)), "method ids sorted and unique", short(got))
    c.check(set(reg.available_methods()) <= set(got), "available ids are listed ids")
    here = method_paths(kind)
    c.check(all(len(v) == 1 for v in here.values()), "one class per method id", lambda: str({k: v for k, v in here.items() if len(v) > 1}))
    c.check(set(got) == set(here), f"{kind} methods listed", lambda: f"defined but not listed {set(here) - set(got)}, listed but not defined {set(got) - set(here)}")
    for mid in c.py.sample(got, len(got)):
        cls = reg.get_method_class(mid)
        info = reg.get_method_info(mid)
        c.check(info.method_id == mid and cls.info.method_id == mid and {class_path(cls)} == here[mid], "id resolves to its own method", lambda: f"{mid}: {cls} {info}")
        c.check(callable(getattr(cls, "fit", None)) and callable(getattr(cls, "predict_proba", None)), "method class has fit and predict_proba", mid)
        c.nontrivial((kind, mid))
    bad = c.pick(["", "nope", got[0].upper(), got[0] + " ", "modssc", None, 3])
    c.raises(KeyError, lambda: reg.get_method_class(bad), "unknown method id refused", repr(bad))
    c.raises(KeyError, lambda: reg.get_method_info(bad), "unknown method id refused", repr(bad))


@M.scenario(quick=4, thorough=40)
def listed_methods(c):
    def go():
        for kind in c.py.sample(["inductive", "transductive"], 2):
            method_listing(c, kind)

    child(c, go) if c.chance(0.5) else go()


def module_with(names, base):
    name = "vf_r01_plugin"
    mod = types.ModuleType(name)
    for n in names:
        setattr(mod, n, type(n, (base,), {"__module__": name}))
    sys.modules[name] = mod
    return mod


@M.scenario(quick=120, thorough=3000)
def method_history(c):
    kind = c.pick(["inductive", "transductive"])
    builtins = {m: next(iter(p)) for m, p in method_paths(kind).items()}

    def go():
        reg = importlib.import_module(f"modssc.{kind}")
        info_cls = importlib.import_module(f"modssc.{kind}.registry").MethodInfo
        flds = {f.name: f for f in dataclasses.fields(info_cls)}
        names = [f"P{i}" for i in range(6)]
        mod = module_with(names, object)
        for i, n in enumerate(names[:5]):
            v = {"method_id": f"plug{i}"}
            for f in flds.values():
                if f.name not in v and f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING:
                    v[f.name] = "x"
            getattr(mod, n).info = info_cls(**v)
        path = [f"vf_r01_plugin:{n}" for n in names]
        model = {m: (p, "implemented") for m, p in builtins.items()}
        trace = []

        def listing():
            for only in (True, False):
                got = reg.available_methods(available_only=only)
                want = sorted(m for m, (p, s) in model.items() if not only or s != "planned")
                c.check(got == want, "listed ids are the registered ids", lambda: f"available_only={only}: extra {set(got) - set(want)} missing {set(want) - set(got)} after {trace}")
                if c.chance(0.3):
                    got.clear()

        def register(mid, p, kw):
            trace.append(("register", mid, p, kw))
            return attempt(lambda: reg.register_method(mid, p, **kw))[0]

        for _ in range(c.py.randint(2, 10)):
            what = c.pick(["new", "new", "again", "conflict", "conflict", "steal", "steal", "builtin", "bad", "list", "class", "class", "info", "unknown"])
            own = [m for m in model if m not in builtins]
            if what == "new":
                i = c.py.randrange(6)
                mid = f"plug{i}"
                if mid in model and model[mid][0] != path[i]:
                    continue
                kw = c.pick([{}, {"status": "implemented"}, {"status": "planned"}]) if mid not in model else {"status": model[mid][1]}
                c.check(register(mid, path[i], kw) == "ok", "registering a new method", lambda: str(trace))
                model[mid] = (path[i], kw.get("status", "implemented"))
            elif what == "again" and own:
                mid = c.pick(own)
                c.check(register(mid, model[mid][0], {"status": model[mid][1]}) == "ok", "registering the same method again", lambda: str(trace))
            elif what == "conflict" and own:
                mid = c.pick(own)
                c.check(register(mid, model[mid][0] + "x", {}) == "ValueError", "conflicting method registration refused", lambda: str(trace))
            elif what == "steal":
                mid = c.pick(sorted(builtins))
                c.check(register(mid, c.pick(path), c.pick([{}, {"status": "planned"}])) == "ValueError", "taking over a builtin method refused", lambda: str(trace))
            elif what == "builtin":
                mid = c.pick(sorted(builtins))
                c.check(register(mid, builtins[mid], {}) == "ok", "registering a builtin method as it is", lambda: str(trace))
            elif what == "bad":
                mid, p, kw = c.pick([("", path[0], {}), (None, path[0], {}), (7, path[0], {}), ("fresh", "nocolon", {}), ("fresh", "a.b.C", {}), ("fresh", path[0], {"status": "done"}), ("fresh", path[0], {"status": ""})])
                c.check(register(mid, p, kw) in ("ValueError", "TypeError"), "malformed method registration refused", lambda: str(trace))
            elif what == "list":
                trace.append("list")
                listing()
            elif what in ("class", "info"):
                mid = c.pick(sorted(model)) if c.chance(0.5) or not own else c.pick(own)
                trace.append((what, mid))
                cls = reg.get_method_class(mid)
                c.check(class_path(cls) == model[mid][0], "id resolves to what was registered", lambda: f"{mid} -> {class_path(cls)} instead of {model[mid][0]} after {trace}")
                if what == "info":
                    k, v = attempt(lambda: reg.get_method_info(mid))
                    if mid == "plug5":
                        c.check(k == "TypeError", "method without info refused", k)
                    else:
                        c.check(k == "ok" and v.method_id == mid, "info states the id", lambda: f"{mid}: {k} {v}")
            elif what == "unknown":
                trace.append("unknown")
                mid = c.pick(["fresh", "plug9", "", "SUPERVISED"])
                k, v = attempt(lambda: reg.get_method_class(mid))
                c.check(k == "KeyError", "unknown method id refused", lambda: f"{mid!r}: {k} {short(v)} after {trace}")
            c.count("registry_operations")
        listing()
        for mid in c.py.sample(sorted(model), 4):
            c.check(class_path(reg.get_method_class(mid)) == model[mid][0], "id resolves to what was registered", lambda: f"{mid} after {trace}")
        return trace

    trace = child(c, go)
    c.nontrivial((kind, [t if isinstance(t, str) else (t[0], t[1]) for t in trace]))
    c.sample({"kind": kind, "history": short(trace)})


class Clf:
    def __init__(self, seed=None, n_jobs=None, alpha=1):
        self.got = {"seed": seed, "n_jobs": n_jobs, "alpha": alpha}


@M.scenario(quick=80, thorough=2000)
def classifier_history(c):
    from modssc.supervised.registry_data import BUILTIN_CLASSIFIERS as _B  # noqa: F401  (import path exists)

    def go():
        import modssc.supervised as sup
        from modssc.supervised.errors import UnknownBackendError, UnknownClassifierError
        from modssc.supervised.registry import register_backend, register_classifier
        from modssc.supervised.types import ClassifierRuntime

        mod = types.ModuleType("vf_r01_plugin")
        for i in range(4):
            setattr(mod, f"K{i}", type(f"K{i}", (Clf,), {}))
        sys.modules["vf_r01_plugin"] = mod
        first = c.chance(0.5)
        base = {}
        if first:
            base = {d["classifier_id"] if "classifier_id" in d else d["key"]: d for d in sup.available_classifiers()}
        model, extra, trace = {}, {}, []
        known = sorted(BASE)
        for _ in range(c.py.randint(2, 9)):
            what = c.pick(["new", "new", "again", "conflict", "steal", "backend", "backend", "dup", "ghost", "create", "create", "list", "steal-backend", "builtin-backend"])
            trace.append(what)
            if what == "new":
                cid = f"plug{c.py.randrange(3)}"
                meta = dict(description=f"d-{cid}", preferred_backends=c.pick([("one", "two"), ("two",), ()]))
                if cid in model:
                    meta = model[cid][0]
                register_classifier(key=cid, **meta)
                model.setdefault(cid, (meta, {}))
            elif what == "again" and model:
                cid = c.pick(sorted(model))
                register_classifier(key=cid, **model[cid][0])
            elif what == "conflict" and model:
                cid = c.pick(sorted(model))
                meta = dict(model[cid][0])
                k = c.pick(sorted(meta))
                meta[k] = meta[k] + (("x",) if k == "preferred_backends" else "x")
                c.raises(ValueError, lambda: register_classifier(key=cid, **meta), "conflicting classifier refused", str(trace))
            elif what == "steal":
                cid = c.pick(known)
                c.raises(ValueError, lambda: register_classifier(key=cid, description="mine", preferred_backends=("one",)), "taking over a builtin classifier refused", str(trace))
            elif what == "steal-backend":
                cid = c.pick(known)
                be = c.pick(sorted(BASE[cid]["backends"]))
                c.raises(ValueError, lambda: register_backend(classifier_id=cid, backend=be, factory="vf_r01_plugin:K3"), "taking over a builtin backend refused", str(trace))
            elif what == "builtin-backend":
                cid = c.pick(known)
                if "vfx" not in extra.get(cid, {}):
                    register_backend(classifier_id=cid, backend="vfx", factory="vf_r01_plugin:K2", notes="n")
                    extra.setdefault(cid, {})["vfx"] = "K2"
            elif what == "backend" and model:
                cid = c.pick(sorted(model))
                be, cls = c.pick(["one", "two", "three"]), f"K{c.py.randrange(4)}"
                if be in model[cid][1]:
                    continue
                register_backend(classifier_id=cid, backend=be, factory=f"vf_r01_plugin:{cls}")
                model[cid][1][be] = cls
            elif what == "dup" and any(v[1] for v in model.values()):
                cid = c.pick(sorted(m for m in model if model[m][1]))
                be = c.pick(sorted(model[cid][1]))
                c.raises(ValueError, lambda: register_backend(classifier_id=cid, backend=be, factory=c.pick(["vf_r01_plugin:Other", f"vf_r01_plugin:{model[cid][1][be]}"]), **c.pick([{}, {"required_extra": "torch"}, {"notes": "again"}])), "second registration of a backend refused", str(trace))
            elif what == "ghost":
                c.raises(UnknownClassifierError, lambda: register_backend(classifier_id="ghost", backend="one", factory="vf_r01_plugin:K0"), "backend of an unknown classifier refused", str(trace))
            elif what == "create":
                if model and c.chance(0.7):
                    cid = c.pick(sorted(model))
                    meta, bes = model[cid]
                    be = c.pick(["auto", "one", "two", "three"])
                    want = next((b for b in meta["preferred_backends"] if b in bes), None) if be == "auto" else (be if be in bes else None)
                    params = c.pick([{}, {"alpha": 5}, {"seed": 9}])
                    rt = ClassifierRuntime(seed=c.pick([None, 0, 4]), n_jobs=c.pick([None, 2]))
                    k, v = attempt(lambda: sup.create_classifier(cid, backend=be, params=dict(params), runtime=rt))
                    if want is None:
                        c.check(k == "UnknownBackendError", "unknown backend refused", lambda: f"{cid} {be}: {k} {v} {trace}")
                    else:
                        w = {"seed": rt.seed, "n_jobs": rt.n_jobs, "alpha": 1, **params}
                        c.check(k == "ok" and type(v).__name__ == bes[want] and v.got == w, "registered backend is built", lambda: f"{cid} {be}: {k} {v} {getattr(v, 'got', None)} vs {bes[want]} {w}")
                elif extra and c.chance(0.6):
                    cid = c.pick(sorted(extra))
                    v = sup.create_classifier(cid, backend="vfx", params={"alpha": 2})
                    c.check(type(v).__name__ == "K2", "added backend of a builtin is built", str(trace))
                else:
                    k, v = attempt(lambda: sup.create_classifier("ghost"))
                    c.check(k == "UnknownClassifierError", "unknown classifier refused", k)
                    cid = c.pick(known)
                    k, v = attempt(lambda: sup.create_classifier(cid, backend="ghost"))
                    c.check(k == "UnknownBackendError", "unknown backend refused", k)
            c.count("registry_operations")
        got = {d["key"]: d for d in sup.available_classifiers()}
        c.check(list(got) == sorted(got), "classifiers listed in order")
        c.check(set(got) == set(BASE) | set(model), "listed classifiers are the registered ones", lambda: f"{set(got) ^ (set(BASE) | set(model))} after {trace}")
        for cid, d in got.items():
            if cid in model:
                meta, bes = model[cid]
                ok = d["description"] == meta["description"] and tuple(d["preferred_backends"]) == meta["preferred_backends"] and {b: s["factory"] for b, s in d["backends"].items()} == {b: f"vf_r01_plugin:{x}" for b, x in bes.items()}
            else:
                ok = {k: v for k, v in d.items() if k != "backends"} == {k: v for k, v in BASE[cid].items() if k != "backends"} and set(d["backends"]) == set(BASE[cid]["backends"]) | set(extra.get(cid, {}))
                ok = ok and all(d["backends"][b] == s for b, s in BASE[cid]["backends"].items())
            c.check(ok, "listed classifier is as registered", lambda: f"{cid}: {d} after {trace}")
            c.check(sup.classifier_info(cid) == d, "classifier_info tells what the listing tells", cid)
        for src in (sup.available_classifiers(), [sup.classifier_info(k) for k in got]):
            was = pickle.dumps(src)
            for d in src:
                d["preferred_backends"].append("junk")
                for b in d["backends"].values():
                    b["factory"] = "junk"
                d["backends"]["junk"] = {}
            again = {d["key"]: d for d in sup.available_classifiers()}
            c.check([again[d["key"]] for d in pickle.loads(was)] == pickle.loads(was), "handed-out classifier info is a copy")
        return trace

    import modssc.supervised as sup0

    BASE = {d["key"]: d for d in sup0.available_classifiers()}
    trace = child(c, go)
    c.nontrivial(trace)


@M.scenario(quick=4, thorough=40)
def listed_classifiers(c):
    def go():
        import modssc.supervised as sup
        from modssc.utils.imports import load_object

        seen = {}
        pk = importlib.import_module("modssc.supervised.backends")
        for m in pkgutil.walk_packages(pk.__path__, pk.__name__ + "."):
            mod = importlib.import_module(m.name)
            for cls in vars(mod).values():
                if isinstance(cls, type) and cls.__module__ == mod.__name__ and vars(cls).get("classifier_id"):
                    seen.setdefault((cls.classifier_id, getattr(cls, "backend", None)), class_path(cls))
        listed = {}
        for d in sup.available_classifiers():
            for be, s in d["backends"].items():
                cls = load_object(s["factory"])
                c.check(cls.classifier_id == d["key"] and cls.backend == be, "classifier resolves to its own class", lambda: f"{d['key']}/{be}: {cls}")
                m = sup.create_classifier(d["key"], backend=be)
                c.check(type(m) is cls, "classifier is built from its backend", lambda: f"{d['key']}/{be}: {type(m)}")
                listed[(d["key"], be)] = class_path(cls)
                c.nontrivial((d["key"], be))
            c.check(set(d["preferred_backends"]) & set(d["backends"]), "a preferred backend exists", d["key"])
            m = sup.create_classifier(d["key"])
            c.check(m.backend == next(b for b in d["preferred_backends"] if b in d["backends"]), "auto takes the first preferred backend", lambda: f"{d['key']}: {m.backend}")
        miss = {k: v for k, v in seen.items() if k not in listed and not v.rsplit(":", 1)[1].startswith("_") and k[1] not in (None, "")}
        c.check(not miss, "every classifier class is registered", str(miss))

    child(c, go) if c.chance(0.5) else go()


@M.scenario(quick=80, thorough=2000)
def op_history(c):
    import modssc.data_augmentation as da0

    MODS = ["vision", "text", "tabular", "audio", "graph"]
    BASE = {o: None for o in da0.available_ops()}
    from modssc.data_augmentation.registry import op_info as oi

    for o in BASE:
        BASE[o] = oi(o)["modality"]

    def go():
        import modssc.data_augmentation as da
        from modssc.data_augmentation.errors import DataAugmentationValidationError as Bad
        from modssc.data_augmentation.registry import op_info
        from modssc.data_augmentation.types import AugmentationOp

        def new(oid, modality, k):
            ns = {"__annotations__": {"op_id": str, "modality": str, "p": int}, "op_id": oid, "modality": modality, "p": k, "apply": lambda self, x, *, rng, ctx: x, "__module__": "vf_r01_plugin"}
            return dataclasses.dataclass(type(f"Op{k}", (AugmentationOp,), ns))

        model, trace = {}, []
        for _ in range(c.py.randint(2, 9)):
            what = c.pick(["new", "new", "again", "conflict", "steal", "steal", "attr", "get", "get", "builtin", "list", "unknown"])
            trace.append(what)
            if what == "new":
                oid = f"plug.{c.py.randrange(4)}"
                if oid in model:
                    continue
                cls = new(oid, c.pick(MODS + ["any"]), c.py.randrange(99))
                got = da.register_op(oid)(cls)
                c.check(got is cls, "register_op hands the class back")
                model[oid] = cls
            elif what == "again" and model:
                oid = c.pick(sorted(model))
                da.register_op(oid)(model[oid])
            elif what == "conflict" and model:
                oid = c.pick(sorted(model))
                c.raises(Bad, lambda: da.register_op(oid)(new(oid, "any", 7)), "conflicting op refused", str(trace))
            elif what == "steal":
                oid = c.pick(sorted(BASE))
                c.raises(Bad, lambda: da.register_op(oid)(new(oid, "any", 7)), "taking over a builtin op refused", str(trace))
            elif what == "attr":
                bare = type("Bare", (), {"apply": lambda self, x, *, rng, ctx: x, c.pick(["op_id", "modality"]): "vision"})
                c.raises(Bad, lambda: da.register_op("plug.bare")(bare), "op without its attributes refused", str(trace))
            elif what == "get" and model:
                oid = c.pick(sorted(model))
                k = c.py.randrange(50)
                o = da.get_op(oid, p=k)
                c.check(type(o) is model[oid] and o.p == k, "registered op is built", str(trace))
                c.raises(Bad, lambda: da.get_op(oid, ghost=1), "unknown op parameter refused", str(trace))
            elif what == "builtin":
                oid = c.pick(sorted(BASE))
                o = da.get_op(oid)
                c.check(o.op_id == oid and op_info(oid)["modality"] == BASE[oid] == o.modality, "builtin op states its id", lambda: f"{oid}: {o}")
                c.raises(Bad, lambda: da.get_op(oid, ghost=1), "unknown op parameter refused", str(trace))
            elif what == "unknown":
                c.raises(Bad, lambda: da.get_op("plug.ghost"), "unknown op refused", str(trace))
                c.raises(Bad, lambda: op_info("plug.ghost"), "unknown op refused", str(trace))
            elif what == "list":
                mo = c.pick(MODS + [None])
                allm = {**BASE, **{o: cls.modality for o, cls in model.items()}}
                want = sorted(o for o, m in allm.items() if mo is None or m in (mo, "any"))
                c.check(da.available_ops(modality=mo) == want, "listed ops are the registered ones", lambda: f"{mo}: {set(da.available_ops(modality=mo)) ^ set(want)} after {trace}")
            c.count("registry_operations")
        c.check(da.available_ops() == sorted(set(BASE) | set(model)), "listed ops are the registered ones", lambda: f"{trace}")
        for o in da.available_ops():
            c.check(op_info(o)["op_id"] == o and type(da.get_op(o)).op_id == o, "op states its id", o)
        return trace

    c.nontrivial(child(c, go))


@M.scenario(quick=6, thorough=60)
def listed_components(c):
    """Preprocessing steps and models, providers, catalog, metrics: what is listed resolves, what is handed out is a copy."""

    def go():
        import modssc.data_loader as dl
        import modssc.evaluation as ev
        import modssc.preprocess as pp
        from modssc.data_augmentation import registry as ar
        from modssc.data_loader.providers import create_provider
        from modssc.data_loader.uri import parse_uri
        from modssc.preprocess.errors import PreprocessValidationError
        from modssc.preprocess.models import load_encoder
        from modssc.preprocess.registry import default_step_registry
        from modssc.utils.imports import load_object

        ops_here = {}
        pk = importlib.import_module("modssc.data_augmentation.ops")
        for m in pkgutil.walk_packages(pk.__path__, pk.__name__ + "."):
            mod = importlib.import_module(m.name)
            for cls in vars(mod).values():
                if isinstance(cls, type) and cls.__module__ == mod.__name__ and isinstance(vars(cls).get("op_id"), str):
                    ops_here[cls.op_id] = cls
        c.check(set(ops_here) <= set(ar.available_ops()), "every op class is registered", lambda: str(set(ops_here) - set(ar.available_ops())))

        steps = pp.available_steps()
        c.check(steps == sorted(set(steps)), "step ids sorted and unique")
        classes = {}
        for s in c.py.sample(steps, len(steps)):
            info = pp.step_info(s)
            c.check(info["id"] == s, "step info states the id", s)
            cls = load_object(info["import_path"])
            c.check(class_path(cls) == info["import_path"] and callable(getattr(cls, "transform", None)), "step resolves to a step class", s)
            c.check((info["kind"] == "fittable") == callable(getattr(cls, "fit", None)), "step kind tells whether it is fitted", lambda: f"{s}: {info['kind']}")
            c.check(cls not in classes, "one step id per class", lambda: f"{s} and {classes[cls]}")
            words = [w for w in s.split(".")[1].replace("-", "_").split("_")]
            c.check("".join(words) in cls.__name__.lower().replace("_", "") or info["import_path"].split(":")[0].endswith(s), "step id names its class", lambda: f"{s}: {info['import_path']}")
            classes[cls] = s
            for k in ("consumes", "produces", "modalities"):
                info[k].append("junk")
            info["id"] = "junk"
            again = pp.step_info(s)
            c.check(again["id"] == s and all("junk" not in again[k] for k in ("consumes", "produces", "modalities")), "handed-out step info is a copy", s)
            c.nontrivial(("step", s))
        pk = importlib.import_module("modssc.preprocess.steps")
        for m in pkgutil.walk_packages(pk.__path__, pk.__name__ + "."):
            mod = importlib.import_module(m.name)
            for cls in vars(mod).values():
                if isinstance(cls, type) and cls.__module__ == mod.__name__ and cls.__name__.endswith("Step") and not cls.__name__.startswith("_") and not m.name.endswith(".base"):
                    c.check(cls in classes, "every step class is registered", lambda: class_path(cls))
        bad = c.pick(["", "ghost", steps[0].upper(), "core"])
        c.raises(PreprocessValidationError, lambda: pp.step_info(bad), "unknown step refused", bad)
        c.raises(PreprocessValidationError, lambda: default_step_registry().instantiate(bad, params={}), "unknown step refused", bad)

        models = pp.available_models()
        c.check(models == sorted(set(models)), "model ids sorted and unique")
        by = {}
        for m in models:
            info = pp.model_info(m)
            c.check(info["id"] == m and info["modality"] in ("text", "vision", "audio"), "model info states the id", m)
            load_object(info["import_path"])
            by.setdefault(info["modality"], []).append(m)
            info["default_kwargs"]["dim"] = -5
            c.check(pp.model_info(m)["default_kwargs"].get("dim") != -5, "handed-out model info is a copy", m)
        for mo in ("text", "vision", "audio", "graph"):
            c.check(pp.available_models(modality=mo) == sorted(by.get(mo, [])), "models of a modality", mo)
        e1, e2 = load_encoder("stub:text", dim=3), load_encoder("stub:text")
        c.check(e1.dim == 3 and e2.dim == 8, "encoder parameters do not stick", f"{e1.dim} {e2.dim}")
        c.raises(PreprocessValidationError, lambda: load_encoder("stub:ghost"), "unknown model refused")

        names = dl.available_providers()
        c.check(names == sorted(set(names)) and names == dl.provider_names(), "provider names sorted and unique", short(names))
        for p in names:
            c.check(create_provider(p).name == p, "provider states its name", p)
            c.check(create_provider(p) is not create_provider(p), "providers are not shared", p)
            c.nontrivial(("provider", p))
        pk = importlib.import_module("modssc.data_loader.providers")
        for m in pkgutil.walk_packages(pk.__path__, pk.__name__ + "."):
            mod = importlib.import_module(m.name)
            for cls in vars(mod).values():
                if isinstance(cls, type) and cls.__module__ == mod.__name__ and isinstance(vars(cls).get("name"), str):
                    c.check(cls.name in names, "every provider class is registered", lambda: class_path(cls))
        c.raises(dl.ProviderNotFoundError, lambda: create_provider("ghost"), "unknown provider refused")
        keys = dl.available_datasets()
        c.check(keys == sorted(set(keys)), "dataset keys sorted and unique")
        uris = {}
        for k in keys:
            s = dl.dataset_info(k)
            c.check(s.key == k and parse_uri(s.uri).provider in names, "catalog entry states its key and a known provider", lambda: f"{k}: {s}")
            c.check(s.required_extra is None or isinstance(s.required_extra, str), "catalog extra", k)
            t = (s.uri, repr(sorted(s.source_kwargs.items(), key=str)))
            c.check(t not in uris, "catalog entries differ", lambda: f"{k} and {uris[t]}")
            uris[t] = k
            c.nontrivial(("dataset", k))
        c.raises(dl.UnknownDatasetError, lambda: dl.dataset_info("ghost"), "unknown dataset refused")

        ms = ev.list_metrics()
        c.check(ms == sorted(set(ms)) and set(ms) == set(ev.METRICS), "metric names", short(ms))
        for m in ms:
            c.check(ev.evaluate([0, 1, 1], [0, 1, 1], [m]) == {m: 1.0} and getattr(ev, m)(np.array([0, 1]), np.array([0, 1])) == 1.0, "metric resolves", m)
        k, v = attempt(lambda: ev.evaluate([0, 1], [0, 1], ["ghost"]))
        c.check(k in ("ValueError", "KeyError"), "unknown metric refused", k)

    child(c, go) if c.chance(0.5) else go()
    c.nontrivial(c.index)


@M.scenario(quick=25, thorough=300)
def order_of_lookups(c):
    """Any first look-up in a process gives the same component as in any other process."""
    want = {}
    for kind in ("inductive", "transductive"):
        want[kind] = {m: next(iter(p)) for m, p in method_paths(kind).items()}

    def go():
        seq = []
        for _ in range(c.py.randint(2, 8)):
            kind = c.pick(["inductive", "transductive"])
            reg = importlib.import_module(f"modssc.{kind}")
            how = c.pick(["class", "info", "list"])
            if how == "list":
                c.check(reg.available_methods() == sorted(want[kind]), "listed methods", kind)
            else:
                mid = c.pick(sorted(want[kind]))
                seq.append((kind, how, mid))
                if how == "class":
                    c.check(class_path(reg.get_method_class(mid)) == want[kind][mid], "same class in every process", lambda: f"{mid} {seq}")
                else:
                    c.check(reg.get_method_info(mid).method_id == mid, "same info in every process", lambda: f"{mid} {seq}")
        return seq

    c.nontrivial(child(c, go))
