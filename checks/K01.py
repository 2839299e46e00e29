"""K01: a command of the command line does what the library call of the same arguments does; its exit status says whether it did."""
import copy
import json
from pathlib import Path

import numpy as np
import yaml

from vf import benchgen as bg
from vf.core import Module, short

M = Module(
    "K01",
    rule="Commands of the modssc command line are run in process on generated data sets, plans, specs, label files and caches; their output, exit status and files are "
    "compared with the library calls of the same arguments, including refused and repeated calls. Non-trivial: distinct (command, variant, outcome).",
    preload=["modssc.cli.app", "modssc.preprocess", "modssc.graph", "sklearn", "torch"],
)


def cli(*args):
    from modssc.cli.app import app
    from typer.testing import CliRunner

    r = CliRunner().invoke(app, [str(a) for a in args])
    return r


def out(c, r, what):
    c.check(r.exit_code == 0, what + " exits 0", lambda: f"exit {r.exit_code}: {short(r.output)} {short(r.exception)}")
    return r.stdout


def refused(c, r, what):
    c.check(r.exit_code != 0, what + " refused", lambda: f"exit 0: {short(r.output)}")


def js(c, text, what):
    try:
        return json.loads(text)
    except ValueError:
        return c.fail(what + " output is JSON", short(text))


def tree(p):
    p = Path(p)
    return {str(x.relative_to(p)): x.read_bytes() for x in sorted(p.rglob("*")) if x.is_file()} if p.exists() else {}


@M.scenario(quick=60, thorough=1000)
def evaluation(c):
    from modssc.evaluation import evaluate

    with bg.sandbox(c) as root:
        n, k = c.py.randint(1, 30), c.py.randint(2, 4)
        t = c.rng.integers(0, k, n)
        p = c.rng.normal(size=(n, k)) if c.chance(0.5) else c.rng.integers(0, k, n)
        np.save(root / "t.npy", np.eye(k)[t] if c.chance(0.2) else t), np.save(root / "p.npy", p)
        names = c.py.sample(["accuracy", "macro_f1", "balanced_accuracy"], c.py.randint(0, 3))
        args = ["evaluation", "compute", "--y-true", root / "t.npy", "--y-pred", root / "p.npy"] + [x for m in names for x in ("--metric", m)]
        got = js(c, out(c, cli(*args, "--json"), "evaluation compute"), "evaluation compute")
        want = evaluate(t, p, names or ["accuracy", "macro_f1", "balanced_accuracy"])
        c.check(set(got) == set(want) and all(abs(got[m] - want[m]) < 1e-12 for m in want), "computed metrics", lambda: f"{got} vs {want}")
        text = dict(x.split(": ") for x in out(c, cli(*args), "evaluation compute").split("\n") if x)
        c.check({m: float(v) for m, v in text.items()} == want, "printed metrics", lambda: f"{text} vs {want}")
        how = c.pick(["metric", "suffix", "absent", "broken", "pickle"])
        bad = root / ("b.txt" if how == "suffix" else "b.npy")
        if how in ("suffix", "broken"):
            bad.write_text("junk")
        if how == "pickle":
            np.save(bad, np.array([{"a": 1}], dtype=object), allow_pickle=True)
        refused(c, cli(*args, "--metric", "auc") if how == "metric" else cli("evaluation", "compute", "--y-true", bad, "--y-pred", root / "p.npy"), "evaluation " + how)
        c.nontrivial((tuple(sorted(names)), p.ndim, how))


def dataset(c, kinds=("tab", "graph")):
    w, ds = bg.world(c, kinds=kinds, labels=("int", "gap"))
    return w, ds


@M.scenario(quick=60, thorough=1000)
def sampling(c):
    from modssc.data_loader import load_dataset
    from modssc.sampling import sample
    from modssc.sampling.api import load_split
    from modssc.sampling.plan import SamplingPlan

    with bg.sandbox(c) as root:
        w, ds = dataset(c)
        plan, seed = bg.sampling_plan(c, w), c.py.randrange(1000)
        f = root / c.pick(["plan.json", "plan.yaml"])
        f.write_text(json.dumps(plan) if f.suffix == ".json" else yaml.safe_dump(plan))
        with bg.source(ds):
            mem = load_dataset("toy", cache_dir=root / "other", download=True)
            try:
                want, _ = sample(mem, plan=SamplingPlan.from_dict(copy.deepcopy(plan)), seed=seed, dataset_fingerprint=mem.meta["dataset_fingerprint"], save=False)
            except Exception as e:  # noqa: BLE001
                want = e
            args = ["sampling", "create", "--dataset", "toy", "--plan", f, "--seed", seed, "--out", root / "split", "--dataset-cache-dir", root / "ds"]
            r = cli(*args)
            if isinstance(want, Exception):
                refused(c, r, "sampling create of what the library refuses")
                c.check(not (root / "split").exists() or not tree(root / "split"), "refused split leaves nothing", short(tree(root / "split").keys()))
                return c.count("refused_by_library")
            got = js(c, out(c, r, "sampling create"), "sampling create")
            c.check(got["split_fingerprint"] == want.split_fingerprint and got["dataset_fingerprint"] == want.dataset_fingerprint and got["stats"] == json.loads(json.dumps(want.stats)), "sampling create", lambda: f"{short(got)}")
            res = load_split(root / "split")
            same = lambda a, b: set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a)
            c.check(same(res.indices, want.indices) and same(res.masks, want.masks) and dict(res.refs) == dict(want.refs), "the written split", "differs from sample()")
            show = js(c, out(c, cli("sampling", "show", root / "split"), "sampling show"), "sampling show")
            c.check(show["plan"] == json.loads(json.dumps(want.plan)) and show["stats"] == got["stats"], "sampling show", short(show))
            keep = tree(root / "split")
            refused(c, cli("sampling", "create", "--dataset", "toy", "--plan", f, "--seed", seed + 1, "--out", root / "split", "--dataset-cache-dir", root / "ds"), "overwriting a split unasked")
            c.check(tree(root / "split") == keep, "split kept", "a refused create changed the split")
            out(c, cli(*args, "--overwrite"), "sampling create --overwrite")
            c.check(load_split(root / "split").split_fingerprint == want.split_fingerprint, "overwritten split", "")
            c.check(out(c, cli("sampling", "validate", root / "split", "--dataset", "toy", "--dataset-cache-dir", root / "ds"), "sampling validate").strip() == "OK", "validate", "")
        w2, small = bg.world(c, kinds=(w["kind"],), n=12, official=w["official"], labels=("int",))
        if not w["masks"]:
            with bg.source(small):
                load_dataset("toy", cache_dir=root / "small", download=True)
                refused(c, cli("sampling", "validate", root / "split", "--dataset", "toy", "--dataset-cache-dir", root / "small"), "split of a larger data set")
        refused(c, cli("sampling", "validate", root / "split", "--dataset", "no_such_data", "--dataset-cache-dir", root / "ds"), "unknown data set")
        bad = root / "bad.yaml"
        bad.write_text(c.pick(["[1, 2]", "split: {kind: loo}", "splitt: {}", "a: [", "split: {kind: holdout, test_frac: 0.1}"]))
        with bg.source(ds):
            refused(c, cli("sampling", "create", "--dataset", "toy", "--plan", bad, "--out", root / "none", "--dataset-cache-dir", root / "ds"), "bad plan")
        c.check(not tree(root / "none"), "bad plan writes nothing", "")
        c.nontrivial((w["kind"], plan["split"]["kind"], w["official"], f.suffix))


@M.scenario(quick=60, thorough=900)
def preprocessing(c):
    from modssc.data_loader import load_dataset
    from modssc.preprocess import preprocess
    from modssc.preprocess.plan import load_plan

    with bg.sandbox(c) as root:
        w, ds = dataset(c, ("tab", "text"))
        plan = bg.preprocess_plan(c, w)
        f = root / "p.yaml"
        f.write_text(yaml.safe_dump(plan))
        seed, nocache, purge = c.py.randrange(99), c.chance(0.4), c.chance(0.3)
        with bg.source(ds):
            mem = load_dataset("toy", cache_dir=root / "other", download=True)
            args = ["preprocess", "run", "--plan", f, "--dataset", "toy", "--dataset-cache-dir", root / "ds", "--seed", seed] + ["--no-cache"] * nocache + ["--purge-unused"] * purge
            try:
                want = preprocess(mem, load_plan(f), seed=seed, fit_indices=np.arange(w["n"]), cache=False)
            except Exception as e:  # noqa: BLE001
                refused(c, cli(*args), "preprocess run of what the library refuses")
                return c.count("refused_" + type(e).__name__)
            got = js(c, out(c, cli(*args), "preprocess run"), "preprocess run")
            c.check(got["preprocess_fingerprint"] == want.preprocess_fingerprint and got["output_key"] == "features.X", "preprocess fingerprint", lambda: f"{got} vs {want.preprocess_fingerprint}")
            c.check(tuple(got["train_X_shape"] or ()) == tuple(getattr(want.dataset.train.X, "shape", ()) or ()), "preprocess shape", lambda: f"{got['train_X_shape']}")
            cached = tree(root / "cache" / "preprocess")
            c.check((not cached) == nocache, "preprocess cache", lambda: f"no_cache={nocache}: {len(cached)} cached files")
            c.check(nocache or (got["cache_dir"] and Path(got["cache_dir"]).is_dir()), "preprocess cache dir", str(got["cache_dir"]))
            again = js(c, out(c, cli(*args), "preprocess run"), "preprocess run")
            c.check(again == got, "preprocess again", lambda: f"{again} vs {got}")
            bad = root / "bad.yaml"
            bad.write_text(c.pick(["steps: [{id: core.nope}]", "steps: 3", "a: [", "steps: [{params: {}}]"]))
            refused(c, cli("preprocess", "run", "--plan", bad, "--dataset", "toy", "--dataset-cache-dir", root / "ds"), "bad preprocess plan")
            refused(c, cli("preprocess", "run", "--plan", f, "--dataset", "no_such_data", "--dataset-cache-dir", root / "ds"), "unknown data set")
        c.nontrivial((w["kind"], nocache, purge, len(plan["steps"])))


@M.scenario(quick=60, thorough=900)
def graphs(c):
    from modssc.data_loader import load_dataset
    from modssc.graph import GraphBuilderSpec, GraphFeaturizerSpec, build_graph, graph_to_views
    from modssc.graph.artifacts import NodeDataset

    with bg.sandbox(c) as root:
        w, ds = dataset(c, ("tab",))
        seed = c.py.randrange(50)
        spec = {"scheme": c.pick(["knn", "epsilon", "anchor"]), "metric": c.pick(["cosine", "euclidean"]), "k": c.py.randint(2, 6), "radius": c.pick([0.5, 2.0]), "backend": "numpy", "chunk_size": c.pick([5, 512])}
        if spec["scheme"] == "anchor":
            spec.update(n_anchors=6, anchors_k=3, candidate_limit=50, anchors_method=c.pick(["random", "kmeans"]))
        via = c.pick(["flags", "json", "yaml"])
        cache = c.chance(0.5)
        args = ["graph", "build", "--dataset", "toy", "--dataset-cache-dir", root / "ds", "--seed", seed, "--cache" if cache else "--no-cache"]
        if c.chance(0.5):
            args += ["--cache-dir", root / "gr"]
        if via == "flags":
            args += [x for k, v in spec.items() for x in ("--" + k.replace("_", "-"), v)]
        else:
            f = root / ("s." + via)
            f.write_text(json.dumps(spec) if via == "json" else yaml.safe_dump(spec))
            args += ["--spec", f]
        with bg.source(ds):
            mem = load_dataset("toy", cache_dir=root / "other", download=True)
            X = mem.train.X
            g = want = None
            try:
                g = build_graph(X, spec=GraphBuilderSpec.from_dict(copy.deepcopy(spec)), seed=seed, cache=False)
            except Exception as e:  # noqa: BLE001
                want = e
            r = cli(*args)
            if g is None:
                refused(c, r, "graph build of what the library refuses")
                return c.count("refused_" + type(want).__name__)
            got = js(c, out(c, r, "graph build"), "graph build")
            c.check((got["n_nodes"], got["n_edges"]) == (g.n_nodes, int(g.edge_index.shape[1])), "built graph", lambda: f"{got} expected {g.n_nodes} nodes, {g.edge_index.shape[1]} edges ({via} {spec})")
            c.check(via == "flags" or got["fingerprint"] == g.meta.get("fingerprint"), "graph fingerprint", lambda: f"{got['fingerprint']} vs {g.meta.get('fingerprint')}")
            where = root / "gr" if "--cache-dir" in args else root / "cache" / "graphs"
            c.check(bool(tree(where)) == cache, "graph cache", lambda: f"cache={cache}: {list(tree(where))[:3]}")
            again = js(c, out(c, cli(*args), "graph build"), "graph build")
            c.check(again == got, "graph again", lambda: f"{again} vs {got}")
            if cache and "--cache-dir" not in args:
                c.check(got["fingerprint"] in out(c, cli("graph", "cache", "ls"), "graph cache ls").split(), "graph cache ls", "the built graph is not listed")
                c.check("1" in out(c, cli("graph", "cache", "purge"), "graph cache purge") and not out(c, cli("graph", "cache", "ls"), "graph cache ls").strip(), "graph cache purge", "still listed")
            names = c.py.sample(["attr", "diffusion"], c.py.randint(1, 2))
            va = ["graph", "views", "build", "--dataset", "toy", "--dataset-cache-dir", root / "ds", "--seed", seed, "--metric", spec["metric"], "--k-graph", spec["k"], "--diffusion-steps", 3,
                  "--diffusion-alpha", 0.2, "--cache-dir", root / "vw"] + [x for v in names for x in ("--views", v)]
            gv = build_graph(X, spec=GraphBuilderSpec(scheme="knn", metric=spec["metric"], k=spec["k"], radius=0.5), seed=seed, cache=False)
            ref = graph_to_views(NodeDataset(X=X, y=mem.train.y, graph=gv, masks={}), spec=GraphFeaturizerSpec(views=tuple(names), diffusion_steps=3, diffusion_alpha=0.2, cache=False), seed=seed, cache=False)
            vw = js(c, out(c, cli(*va), "graph views build"), "graph views build")
            c.check(vw["views"] == list(ref.views), "views built", lambda: f"{vw['views']} vs {list(ref.views)}")
            bad = root / "bad.yaml"
            bad.write_text(c.pick(["scheme: ring", "kk: 3", "[1]", "scheme: knn\nk: 0", "a: [", "weights: {kind: heat, tau: 1}", "weights: 3", "metric: l7"]))
            refused(c, cli("graph", "build", "--dataset", "toy", "--dataset-cache-dir", root / "ds", "--spec", bad), "bad graph spec")
            refused(c, cli("graph", "build", "--dataset", "toy", "--dataset-cache-dir", root / "ds", "--scheme", "ring"), "bad graph scheme")
        c.nontrivial((spec["scheme"], via, cache, tuple(names)))


@M.scenario(quick=50, thorough=700)
def datasets(c):
    from modssc.data_loader import api, load_dataset

    with bg.sandbox(c) as root:
        w, ds = dataset(c)
        d = root / "dsc"
        arg = ["--cache-dir", d]
        with bg.source(ds):
            c.check(out(c, cli("datasets", "cache", "ls", *arg), "cache ls").strip() == "", "empty cache", "something is listed in a new cache")
            out(c, cli("datasets", "download", "--dataset", "toy", *arg), "datasets download")
            rows = [x.split() for x in out(c, cli("datasets", "cache", "ls", *arg), "cache ls").splitlines()]
            c.check(len(rows) == 1, "cache ls", str(rows))
            fp = rows[0][0]
            m = load_dataset("toy", cache_dir=d, download=False)
            c.check(m.meta["dataset_fingerprint"] == fp, "downloaded data set", f"{fp} vs {m.meta['dataset_fingerprint']}")
            c.check(np.array_equal(np.asarray(m.train.y), np.asarray(ds.train.y)), "downloaded labels", "")
            keep = tree(d / "processed")
            out(c, cli("datasets", "download", "--dataset", "toy", *arg, *(["--force"] if c.chance(0.5) else [])), "datasets download again")
            c.check(set(tree(d / "processed")) == set(keep), "download again", "other files after a second download")
            out(c, cli("datasets", "cache", "gc", *arg, *(["--no-keep-latest"] if c.chance(0.3) else [])), "cache gc")
            c.check(load_dataset("toy", cache_dir=d, download=False).meta["dataset_fingerprint"] == fp, "gc keeps the latest", "")
            how = c.pick(["uri", "fp", "alien", "escape"])
            if how == "uri":
                c.check("1" in out(c, cli("datasets", "cache", "purge", rows[0][1], *arg), "cache purge"), "purged variants", "")
            elif how == "fp":
                out(c, cli("datasets", "cache", "purge", fp, "--fingerprint", *arg), "cache purge")
            elif how == "alien":
                c.check("0" in out(c, cli("datasets", "cache", "purge", "other:thing", *arg), "cache purge"), "purged variants", "")
            else:
                (root / "precious").mkdir()
                (root / "precious" / "f").write_text("x")
                refused(c, cli("datasets", "cache", "purge", "../../precious", "--fingerprint", *arg), "purging outside the cache")
                c.check((root / "precious" / "f").exists(), "purge stays inside", "a directory outside the cache is gone")
            left = out(c, cli("datasets", "cache", "ls", *arg), "cache ls").split()
            c.check((fp in left) == (how in ("alien", "escape")), "purge", f"{how}: {left}")
            c.check(bool(tree(d / "processed")) == (how in ("alien", "escape")), "purged files", how)
        refused(c, cli("datasets", "info", "--dataset", "no_such"), "info of an unknown data set")
        refused(c, cli("datasets", "download", "--dataset", "no_such", *arg), "download of an unknown data set")
        refused(c, cli("datasets", "download", *arg), "download of nothing")
        ids = out(c, cli("datasets", "list"), "datasets list").split()
        c.check(ids == list(api.available_datasets()), "datasets list", "")
        mod = c.pick(["text", "vision", "tabular", "graph", "audio"])
        c.check(out(c, cli("datasets", "list", "--modalities", mod), "datasets list").split() == [k for k in ids if api.dataset_info(k).modality == mod], "datasets list of a modality", mod)
        one = c.pick(ids)
        c.check(js(c, out(c, cli("datasets", "info", "--dataset", one), "datasets info"), "datasets info") == json.loads(json.dumps(api.dataset_info(one).as_dict())), "datasets info", one)
        c.check(out(c, cli("datasets", "providers"), "providers").split() == list(api.provider_names()), "providers", "")
        c.nontrivial((how, w["kind"], w["official"], mod))


@M.scenario(quick=30, thorough=200)
def registries(c):
    from modssc.data_augmentation.registry import available_ops, op_info
    from modssc.inductive import registry as ireg
    from modssc.preprocess import available_models, available_steps, step_info
    from modssc.supervised import available_classifiers, classifier_info
    from modssc.transductive import registry as treg

    for name, reg in (("inductive", ireg), ("transductive", treg)):
        flag = c.pick(["--all", "--available-only"])
        ids = out(c, cli(name, "methods", "list", flag), name + " list").split()
        c.check(ids == list(reg.available_methods(available_only=flag != "--all")), name + " list", flag)
        one = c.pick(ids)
        info = js(c, out(c, cli(name, "methods", "info", one), name + " info"), name + " info")
        c.check(info["method_id"] == one and info["info"]["method_id"] == one, name + " info", short(info))
        refused(c, cli(name, "methods", "info", "no_such"), name + " unknown method")
    ids = out(c, cli("preprocess", "steps", "list"), "steps list").split()
    c.check(ids == list(available_steps()) and js(c, out(c, cli("preprocess", "steps", "list", "--json"), "steps list"), "steps") == ids, "steps list", "")
    one = c.pick(ids)
    c.check(js(c, out(c, cli("preprocess", "steps", "info", one), "step info"), "step info") == json.loads(json.dumps(step_info(one))), "step info", one)
    refused(c, cli("preprocess", "steps", "info", "no_such"), "unknown step")
    c.check(out(c, cli("preprocess", "models", "list"), "models list").split() == list(available_models()), "models list", "")
    mod = c.pick([None, "vision", "text", "tabular", "audio", "graph"])
    ops = out(c, cli("augmentation", "list", *(["--modality", mod] if mod else [])), "ops list").split()
    c.check(ops == list(available_ops(modality=mod) if mod else available_ops()) and bool(ops), "ops list", str(mod))
    one = c.pick(ops)
    c.check(js(c, out(c, cli("augmentation", "info", one, "--as-json"), "op info"), "op info") == json.loads(json.dumps(op_info(one))), "op info", one)
    cl = js(c, out(c, cli("supervised", "list", "--json"), "classifiers"), "classifiers")
    c.check(cl == json.loads(json.dumps(available_classifiers())), "classifiers list", "")
    one = c.pick([x["key"] for x in cl])
    c.check(js(c, out(c, cli("supervised", "info", one), "classifier info"), "classifier info") == json.loads(json.dumps(classifier_info(one))), "classifier info", one)
    r = cli("doctor", "--json")
    st = js(c, r.stdout, "doctor")
    c.check((r.exit_code == 0) == all(x["available"] for x in st) and len(st) == 9, "doctor", short(st))
    refused(c, cli("no_such_command"), "unknown command")
    refused(c, cli("--log-level", "shout", "doctor"), "unknown log level")
    c.nontrivial((flag, mod, one))
