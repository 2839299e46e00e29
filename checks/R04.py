"""R04: a missing optional dependency stops exactly the requests that need it, with an error naming what to install."""
import importlib
import importlib.abc
import importlib.machinery
import os
import pickle
import pkgutil
import sys
import tempfile
import tomllib
from pathlib import Path

import numpy as np

from vf.core import Inconclusive, Module, Violation, short

M = Module(
    "R04",
    rule="In a forked process where a generated set of optional libraries cannot be imported and modssc is imported afresh, every part of the library runs requests whose needs are stated in the harness: "
    "what needs a missing library must raise the part's OptionalDependencyError naming an extra of the package, everything else must give the result of the complete environment. "
    "Non-trivial: distinct (part, component, missing set, outcome).",
    preload=["torch", "torch.optim", "sklearn.neighbors", "sklearn.linear_model", "sklearn.ensemble", "sklearn.cluster", "sklearn.decomposition", "sklearn.preprocessing", "sklearn.impute", "sklearn.feature_extraction.text",
             "scipy.sparse.csgraph", "torchvision", "torchaudio", "torch_geometric.nn", "torch_geometric.data", "datasets", "PIL.Image", "faiss"],
)
# what else cannot be imported when a library is missing
ALSO = {
    "torch": {"torchvision", "torchaudio", "torchcodec", "torch_geometric", "sentence_transformers", "open_clip", "timm"},
    "scipy": {"sklearn", "sentence_transformers", "torch_geometric"},
    "sklearn": {"sentence_transformers"},
    "transformers": {"sentence_transformers"},
    "PIL": {"torchvision", "open_clip", "timm"},
    "torchvision": {"open_clip", "timm"},
    "torch_geometric": set(),
    "torchaudio": set(),
    "datasets": set(),
    "faiss": set(),
    "sentence_transformers": set(),
    "open_clip": set(),
    "tensorflow_datasets": set(),
    "torchcodec": set(),
    "timm": set(),
}
DIST = {"scikit-learn": "sklearn", "torch-geometric": "torch_geometric", "sentence-transformers": "sentence_transformers", "open-clip-torch": "open_clip", "pillow": "PIL", "faiss-cpu": "faiss",
        "tensorflow-datasets": "tensorflow_datasets", "tf-keras": "tf_keras"}


def closure(names):
    out = set(names)
    while True:
        more = set().union(*[ALSO[n] for n in out]) - out if out else set()
        if not more:
            return frozenset(out)
        out |= more


BROKEN = [False]


def some_missing(c, must=()):
    BROKEN[0] = c.py.random() < 0.25  # installed, but failing when imported
    how = c.pick(["all", "one", "one", "few", "few", "must"])
    if how == "all":
        return closure(ALSO)
    if how == "must" and must:
        return closure([c.pick(sorted(must))])
    return closure(c.py.sample(sorted(ALSO), 1 if how in ("one", "must") else c.py.randint(2, 4)))


def extras():
    """extra -> libraries it installs, as the package metadata states."""
    if not EXTRAS:
        import modssc

        top = Path(modssc.__file__).resolve().parents[2] / "pyproject.toml"
        for k, v in tomllib.loads(top.read_text())["project"]["optional-dependencies"].items():
            ds = [x.split(";")[0].split("[")[0].split(">")[0].split("=")[0].strip().lower() for x in v]
            EXTRAS[k] = {DIST.get(d, d) for d in ds}
    return EXTRAS


EXTRAS = {}


class Absent(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Libraries that are not installed, or (broken) installed and failing while they are imported."""

    def __init__(self, names, broken=False):
        self.names = names
        self.broken = broken

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        raise ImportError(f"{module.__name__}: a shared library of it cannot be loaded", name=module.__name__)

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            if self.broken:
                return importlib.machinery.ModuleSpec(name, self)
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def plain(x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    if isinstance(x, np.ndarray):
        return x.tolist() if x.dtype == object else np.array(x)
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, "tocsr"):
        return plain(x.toarray())
    if x is None or isinstance(x, (str, int, float, bool, bytes)):
        return x
    return repr(type(x).__name__)


def same(a, b, tol=0.0):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or (a.dtype != b.dtype and not tol):
            return False
        if a.dtype.kind in "fc":
            return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)) if tol else a.tobytes() == b.tobytes()
        return bool(np.array_equal(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or (tol and abs(a - b) <= tol * max(1, abs(a)))
    return type(a) is type(b) and a == b


def run(fn, missing):
    """fn() in a forked child with modssc imported afresh and these libraries missing: ('ok', value) or ('raise', facts)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            for k in [k for k in sys.modules if k.split(".")[0] in missing or k.split(".")[0] in ("modssc", "bench")]:
                del sys.modules[k]
            sys.meta_path.insert(0, Absent(missing, BROKEN[0]))
            importlib.invalidate_caches()
            try:
                res = ("ok", plain(fn()))
            except BaseException as e:  # noqa: BLE001
                import traceback

                res = ("raise", {"type": type(e).__name__, "module": type(e).__module__, "extra": getattr(e, "extra", None), "text": str(e), "import": isinstance(e, ImportError),
                                 "tb": traceback.format_exc()[-2500:]})
            buf = pickle.dumps(res)
            while buf:
                buf = buf[os.write(w, buf):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise Inconclusive("child wrote nothing")
    return pickle.loads(buf)


def judge(c, part, what, fn, needs, missing, *, extra=None, tol=0.0, base_fn=None, offline=False, also_ok=()):
    """needs: libraries without which the request cannot be answered."""
    lost = sorted(set(needs) & missing)
    if offline and not lost:  # cannot be answered here even with everything installed: only the refusal is judged
        c.count("not judged: needs a download")
        return None
    got = run(fn, missing)
    tell = f"{part} {short(what)} without {sorted(missing)}"
    c.count("part:" + part)
    c.count("refused" if lost else "answered")
    c.nontrivial((part, str(what), tuple(sorted(missing)), got[0]))
    if lost:
        c.check(got[0] == "raise", "answered without what it needs", lambda: f"{tell}: needs {lost}, returned {short(got[1])}")
        e = got[1]
        c.check(e["type"] in ("OptionalDependencyError", *also_ok) and (e["type"] != "ImportError" or any(m in e["text"] for m in lost)), "a missing library is not reported as such", lambda: f"{tell}: needs {lost}: {e['type']}: {e['text']}\n{e['tb']}")
        if e["type"] == "OptionalDependencyError":
            named(c, tell, e, extra)
        return None
    base = run(base_fn or fn, frozenset())
    c.check(got[0] == base[0], "stopped by a missing library it does not need", lambda: f"{tell}: {short(base, 300)} became {short(got, 2500)}")
    if got[0] == "raise":
        c.check((got[1]["type"], got[1]["text"]) == (base[1]["type"], base[1]["text"]), "refused differently", lambda: f"{tell}: {base[1]['type']}: {base[1]['text']} became {got[1]['type']}: {got[1]['text']}")
        c.count("request refused either way")
        if os.environ.get("VF_SHOW"):
            print("REFUSED", tell[:100], got[1]["type"], got[1]["text"][:200])
        return None
    c.check(same(base[1], got[1], tol), "a missing library changes the result", lambda: f"{tell}: {short(base[1], 500)} became {short(got[1], 500)}")
    return got[1]


def named(c, tell, e, extra=None):
    c.check(isinstance(e["extra"], str) and e["extra"] in extras(), "the extra to install does not exist", lambda: f"{tell}: {e['extra']!r} not in {sorted(extras())}: {e['text']}")
    c.check(e["extra"] in e["text"], "the message does not say what to install", lambda: f"{tell}: {e['text']}")
    if extra is not None:
        c.check(e["extra"] == extra, "another extra is named than the one declared", lambda: f"{tell}: declared {extra}, named {e['extra']}: {e['text']}")


# ---------------------------------------------------------------- imports and command line
@M.scenario(quick=16, thorough=200)
def imports(c):
    BROKEN[0] = c.index % 8 == 4
    missing = closure(ALSO) if c.index % 4 == 0 else some_missing(c, ["torch", "sklearn"])

    def fn():
        import modssc

        bad = {}
        n = 0
        for m in pkgutil.walk_packages(modssc.__path__, "modssc."):
            if m.name.endswith("__main__"):
                continue
            n += 1
            try:
                importlib.import_module(m.name)
            except BaseException as e:  # noqa: BLE001
                bad[m.name] = [type(e).__name__, str(e), getattr(e, "extra", None), m.ispkg]
        return [n, bad]

    kind, val = run(fn, missing)
    c.check(kind == "ok", "importing fails", lambda: str(val))
    c.count("modules imported", val[0])
    for name, (t, text, extra, ispkg) in val[1].items():
        c.check(t == "OptionalDependencyError", "a module of the library cannot be imported", lambda: f"{name} without {sorted(missing)}: {t}: {text}")
        named(c, f"{name} without {sorted(missing)}", {"extra": extra, "text": text})
        c.check(not ispkg, "a whole package cannot be imported", lambda: f"{name} without {sorted(missing)}: {text}")
        c.check("torch" in missing, "a module is stopped by a missing library it does not need", lambda: f"{name} without {sorted(missing)}: {text}")
    c.nontrivial(("imports", tuple(sorted(missing)), len(val[1])))


COMMANDS = [
    ["doctor"], ["doctor", "--json"], ["datasets", "list"], ["datasets", "providers"], ["datasets", "info", "--dataset", "cora"], ["preprocess", "steps", "list"], ["preprocess", "models", "list"],
    ["augmentation", "list"], ["augmentation", "info", "text.lowercase"], ["evaluation", "list"], ["inductive", "methods", "list"], ["transductive", "methods", "list"], ["supervised", "list"],
    ["supervised", "info", "knn"], ["inductive", "methods", "info", "pseudo_label"], ["transductive", "methods", "info", "label_propagation"], ["--version"], ["preprocess", "steps", "info", "text.tfidf"],
]


@M.scenario(quick=54, thorough=1000)
def commands(c):
    cmd = COMMANDS[c.index % len(COMMANDS)]
    missing = some_missing(c)

    def fn():
        from typer.testing import CliRunner

        from modssc.cli.app import app

        r = CliRunner().invoke(app, list(cmd), catch_exceptions=True)
        if r.exception is not None and not isinstance(r.exception, SystemExit):
            raise r.exception
        return [r.exit_code, r.output]

    out = judge(c, "cli", " ".join(cmd), fn, (), missing)
    c.check(out is not None and out[0] == 0, "command fails", lambda: f"{cmd}: {out}")


# ---------------------------------------------------------------- sampling, views, evaluation, search
@M.scenario(quick=24, thorough=600)
def plain_parts(c):
    what = c.pick(["sampling", "views", "evaluation", "hpo", "augmentation"])
    missing = some_missing(c, ["torch", "sklearn", "scipy"])
    n = c.py.randint(12, 30)
    X, y = c.rng.normal(size=(n, 4)), c.rng.integers(0, 3, n)
    seed = c.py.randrange(99)

    def sampling():
        from modssc.data_loader.types import LoadedDataset, Split
        from modssc.sampling import HoldoutSplitSpec, LabelingSpec, SamplingPlan, sample

        p = SamplingPlan(split=HoldoutSplitSpec(test_fraction=0.25, val_fraction=0.2, stratify=seed % 2 == 0), labeling=LabelingSpec(mode="fraction", value=0.4))
        r, _ = sample(LoadedDataset(train=Split(X=X, y=y), test=None, meta={"dataset_fingerprint": "f"}), plan=p, seed=seed, save=False)
        return [r.indices, r.masks, r.stats]

    def views():
        from modssc.data_loader.types import LoadedDataset, Split
        from modssc.views import generate_views, two_view_random_feature_split

        r = generate_views(LoadedDataset(train=Split(X=X, y=y), test=None, meta={"dataset_fingerprint": "f", "modality": "tabular"}), plan=two_view_random_feature_split(), seed=seed, cache=False)
        return [r.columns, {k: v.train.X for k, v in r.views.items()}]

    def evaluation():
        from modssc.evaluation import evaluate

        return evaluate(y, np.roll(y, seed % 3), ["accuracy", "macro_f1", "balanced_accuracy"])

    def hpo():
        from modssc.hpo import Space

        s = Space.from_dict({"a": [1, 2, 3], "b": {"dist": "loguniform", "low": 0.1, "high": 10.0}}) if seed % 2 else Space.from_dict({"a": [1, 2], "b": ["x", "y"]})
        return [t.params for t in (s.iter_random(seed=seed, n_trials=4) if seed % 2 else s.iter_grid())]

    def augmentation():
        from modssc.data_augmentation import AugmentationContext, AugmentationPlan, StepConfig, build_pipeline

        ctx = AugmentationContext(seed=seed, epoch=1, sample_id=seed)
        out = []
        for mod, ops, x in (("tabular", ["tabular.gaussian_noise", "tabular.feature_dropout", "tabular.swap_noise"], X[0]), ("vision", ["vision.random_horizontal_flip", "vision.gaussian_noise", "vision.cutout"], c0),
                            ("audio", ["audio.add_noise", "audio.time_shift"], X[:, 0]), ("text", ["text.lowercase", "text.word_dropout", "text.random_swap"], "The quick brown fox jumps over")):
            out.append(build_pipeline(AugmentationPlan(steps=tuple(StepConfig(op_id=o) for o in ops), modality=mod)).apply(x, ctx=ctx))
        return out

    c0 = c.rng.random((6, 6, 3))
    judge(c, what, seed, locals()[what], (), missing)


# ---------------------------------------------------------------- preprocessing steps
def step_table(c):
    n = c.py.randint(6, 12)
    X = c.rng.normal(size=(n, 4))
    gap = X.copy()
    gap[0, 1] = np.nan
    texts = [" ".join(c.py.choice(["red", "green", "blue", "tree"]) for _ in range(4)) for _ in range(n)]
    img = c.rng.integers(0, 255, (n, 6, 6, 3)).astype(np.uint8)
    ei = np.array([[0, 1, 2, 3, 4], [1, 2, 3, 4, 5]])
    wav = c.rng.normal(size=(n, 800)).astype(np.float32)
    cat = np.array([[c.py.choice("ab"), c.py.choice("xyz")] for _ in range(n)], dtype=object)
    sk, to = {"sklearn"}, {"torch"}
    raw = [{"id": "core.copy_raw", "params": {}}]
    f = lambda mod, data, steps, needs: (mod, data, steps, set(needs))
    one = lambda i, **p: [{"id": i, "params": p}]
    table = {
        "core.ensure_2d": f("tabular", X, one("core.ensure_2d"), ()),
        "core.copy_raw": f("tabular", X, raw, ()),
        "core.cast_dtype": f("tabular", X, raw + one("core.cast_dtype", dtype="float32"), ()),
        "core.pca": f("tabular", X, one("core.ensure_2d") + one("core.pca", n_components=2), ()),
        "core.random_projection": f("tabular", X, one("core.ensure_2d") + one("core.random_projection", n_components=2), ()),
        "core.to_numpy": f("tabular", X, raw + one("core.to_numpy"), ()),
        "core.to_torch": f("tabular", X, raw + one("core.to_torch", device="cpu", dtype="float32"), to),
        "labels.encode": f("tabular", X, raw + one("labels.encode"), ()),
        "labels.ensure_onehot": f("tabular", X, raw + one("labels.ensure_onehot"), ()),
        "labels.to_numpy": f("tabular", X, raw + one("labels.to_numpy"), ()),
        "labels.to_torch": f("tabular", X, raw + one("labels.to_torch", device="cpu"), to),
        "tabular.impute": f("tabular", gap, raw + one("tabular.impute"), sk),
        "tabular.one_hot": f("tabular", cat, one("tabular.one_hot"), sk),
        "tabular.standard_scaler": f("tabular", X, raw + one("tabular.standard_scaler"), sk),
        "text.ensure_strings": f("text", texts, one("text.ensure_strings"), ()),
        "text.hash_tokenizer": f("text", texts, one("text.hash_tokenizer", max_length=5), ()),
        "text.vocab_tokenizer": f("text", texts, one("text.vocab_tokenizer", max_length=5), ()),
        "text.tfidf": f("text", texts, one("text.tfidf"), sk),
        "text.sentence_transformer": f("text", texts, one("text.sentence_transformer"), {"sentence_transformers"}),
        "embeddings.auto:text": f("text", texts, one("embeddings.auto", model_id_text="stub:text"), ()),
        "embeddings.auto:vision": f("vision", img, one("embeddings.auto", model_id_vision="stub:vision"), ()),
        "embeddings.auto:st": f("text", texts, one("embeddings.auto", model_id_text="st:all-MiniLM-L6-v2"), {"sentence_transformers"}),
        "embeddings.auto:tv": f("vision", img, one("embeddings.auto", model_id_vision="torchvision:resnet18"), {"torch", "torchvision"}),
        "embeddings.auto:clip": f("vision", img, one("embeddings.auto", model_id_vision="openclip:ViT-B-32/openai"), {"open_clip", "torch"}),
        "vision.openclip": f("vision", img, one("vision.openclip"), {"open_clip", "torch"}),
        "audio.wav2vec2": f("audio", wav, one("audio.wav2vec2"), {"torchaudio", "torch"}),
        "audio.log_mel_spectrogram": f("audio", wav, raw + one("audio.log_mel_spectrogram", n_mels=8), {"torchaudio", "torch"}),
        "vision.resize": f("vision", img, one("vision.resize", height=4, width=4), None or ()),
        "vision.normalize": f("vision", img, one("vision.normalize"), ()),
        "vision.channels_order": f("vision", img, one("vision.channels_order", order="NCHW"), ()),
        "vision.zca_whitening": f("vision", img.astype(float) / 255, one("vision.zca_whitening"), ()),
        "graph.attach_edge_weight": f("graph", (X, ei), one("graph.attach_edge_weight"), ()),
        "graph.edge_sparsify": f("graph", (X, ei), one("graph.attach_edge_weight") + one("graph.edge_sparsify"), ()),
        "graph.node2vec": f("graph", (X, ei), one("graph.node2vec", embedding_dim=4, num_walks=1, walk_length=4), to),
        "graph.dgi": f("graph", (X, ei), one("graph.dgi", embedding_dim=4, hidden_dim=4, unsup_epochs=1), to),
    }
    return table, n


OFFLINE = {"text.sentence_transformer", "embeddings.auto:st", "embeddings.auto:tv", "embeddings.auto:clip", "vision.openclip", "audio.wav2vec2"}
MODEL_EXTRA = {"embeddings.auto:st": "preprocess-text", "embeddings.auto:tv": "preprocess-vision", "embeddings.auto:clip": "preprocess-vision"}


@M.scenario(quick=105, thorough=2500)
def steps(c):
    table, n = step_table(c)
    name = sorted(table)[c.index % len(table)]
    mod, data, plan, needs = table[name]
    missing = some_missing(c, needs)
    y = c.rng.integers(0, 3, n)
    cached = c.chance(0.5) and name not in OFFLINE

    def fn():
        from modssc.data_loader.types import LoadedDataset, Split
        from modssc.preprocess import PreprocessPlan, StepConfig, preprocess

        X, edges = data if mod == "graph" else (data, None)
        ds = LoadedDataset(train=Split(X=X, y=y, edges=edges), test=None, meta={"dataset_fingerprint": "f", "modality": mod})
        p = PreprocessPlan(steps=tuple(StepConfig(step_id=s["id"], params=s["params"]) for s in plan), output_key="features.X")
        with tempfile.TemporaryDirectory() as t:
            out = []
            for _ in range(2 if cached else 1):
                r = preprocess(ds, p, fit_indices=np.arange(n), seed=5, cache=cached, cache_dir=t if cached else None)
                out.append([r.dataset.train.X, r.dataset.train.y])
            return out

    extra = MODEL_EXTRA.get(name)
    if extra is None and ":" not in name:
        from modssc.preprocess import step_info

        extra = step_info(name)["required_extra"]
    judge(c, "preprocess", name, fn, needs, missing, extra=extra, offline=name in OFFLINE)


# ---------------------------------------------------------------- graphs
@M.scenario(quick=48, thorough=1500)
def graphs(c):
    n = c.py.randint(6, 20)
    X = c.rng.normal(size=(n, 3))
    scheme = c.pick(["knn", "epsilon", "anchor"])
    backend = c.pick(["auto", "numpy", "sklearn"] + (["faiss"] if scheme == "knn" else []))
    kw = dict(scheme=scheme, metric=c.pick(["euclidean", "cosine"]), backend=backend, symmetrize=c.pick(["or", "mutual", "none"]), normalize=c.pick(["rw", "sym", "none"]))
    kw.update({"knn": dict(k=3), "epsilon": dict(radius=0.7), "anchor": dict(k=2, n_anchors=4, anchors_k=2, anchors_method=c.pick(["random", "kmeans"]))}[scheme])
    needs = {"sklearn": {"sklearn"}, "faiss": {"faiss"}}.get(backend, set()) | ({"sklearn"} if kw.get("anchors_method") == "kmeans" else set())
    missing = some_missing(c, needs | {"sklearn"})

    def fn(**over):
        from modssc.graph import GraphBuilderSpec, build_graph

        g = build_graph(X, spec=GraphBuilderSpec(**{**kw, **over}), seed=3, cache=False)
        return [g.edge_index, g.edge_weight]

    base = (lambda: fn(backend="numpy")) if backend == "auto" and "sklearn" in missing else None
    judge(c, "graph", (scheme, backend, kw.get("anchors_method")), fn, needs, missing, base_fn=base)


@M.scenario(quick=32, thorough=1000)
def graph_views(c):
    n = c.py.randint(3, 12)
    view = c.pick(["attr", "diffusion", "diffusion", "struct"])
    e = c.py.randint(0, 3 * n)
    ei = np.array([[c.py.randrange(n) for _ in range(e)], [c.py.randrange(n) for _ in range(e)]], dtype=np.int64).reshape(2, e)
    w = c.rng.random(e).astype(np.float32) if c.chance(0.5) else None
    X = c.rng.normal(size=(n, 3)).astype(np.float32)
    big = view == "struct" and c.chance(0.5)
    needs = {"scipy", "sklearn"} if big else set()
    missing = some_missing(c, {"scipy"})
    steps_, alpha = c.py.randint(1, 3), c.pick([0.0, 0.1, 0.5])

    def fn():
        from modssc.graph import GraphFeaturizerSpec, NodeDataset, graph_to_views
        from modssc.graph.artifacts import GraphArtifact

        g = GraphArtifact(n_nodes=n, edge_index=ei, edge_weight=w, directed=True, meta={})
        ds = NodeDataset(X=X, y=np.zeros(n, dtype=int), graph=g, masks={"train": np.ones(n, dtype=bool)})
        kw = dict(diffusion_steps=steps_, diffusion_alpha=alpha)
        if view == "struct":
            kw.update(struct_dim=2, struct_walk_length=4, struct_num_walks_per_node=1, struct_window_size=2)
            from modssc.graph.featurization.views.struct import StructParams, struct_embeddings

            return struct_embeddings(edge_index=ei, n_nodes=n, params=StructParams(dim=2, walk_length=4, num_walks_per_node=2, window_size=2, max_dense_nodes=1 if big else 512), seed=3)
        r = graph_to_views(ds, spec=GraphFeaturizerSpec(views=(view,), **kw), seed=3, cache=False)
        return r.views

    judge(c, "graph views", (view, big), fn, needs, missing, tol=1e-5)


# ---------------------------------------------------------------- classifiers
@M.scenario(quick=60, thorough=1500)
def classifiers(c):
    from modssc.supervised import available_classifiers

    table = [(d["key"], b, s["required_extra"]) for d in available_classifiers() for b, s in sorted(d["backends"].items())]
    cid, be, extra = table[c.index % len(table)]
    sk = {"sklearn"}
    needs = {"sklearn": sk, "numpy": set(), "torch": {"torch"}}[be]
    needs = needs | {"image_pretrained": {"torchvision"}, "audio_pretrained": {"torchaudio"}, "graphsage_inductive": {"torch_geometric"}}.get(cid, set())
    missing = some_missing(c, needs)
    n = 12
    X, y = np.abs(c.rng.normal(size=(n, 4))), np.arange(n) % 3
    offline = be == "torch" and cid not in ("knn", "logreg", "mlp")

    def fn():
        from modssc.supervised import create_classifier
        from modssc.supervised.types import ClassifierRuntime

        clf = create_classifier(cid, backend=be, runtime=ClassifierRuntime(seed=3, n_jobs=1))
        Q = X
        if be == "torch" and cid in ("knn", "logreg", "mlp"):
            import torch

            Q = torch.tensor(X, dtype=torch.float32)
            clf.fit(Q, torch.tensor(y))
        else:
            clf.fit(X, y)
        return clf.predict(Q)

    if not (needs & missing) and offline:
        return
    judge(c, "supervised", (cid, be), (lambda: create_and_fit_any(cid, be, X, y)) if be == "torch" and needs & missing else fn, needs, missing, extra=extra,
          also_ok=("ImportError",) if cid == "graphsage_inductive" else ())


def create_and_fit_any(cid, be, X, y):
    """Creation or fit must refuse; a lazily constructed classifier refuses at fit."""
    from modssc.supervised import create_classifier

    clf = create_classifier(cid, backend=be)
    if be == "torch":
        try:
            import torch
        except ImportError:
            pass
        else:
            X = torch.rand((len(y), 3, 8, 8) if cid == "image_pretrained" else (len(y), 400))
            if cid == "graphsage_inductive":
                X = {"x": X, "edge_index": torch.tensor([[0, 1], [1, 0]])}
            y = torch.tensor(y)
    clf.fit(X, y)
    return "fitted"


@M.scenario(quick=40, thorough=1000)
def auto_backend(c):
    from modssc.supervised import available_classifiers

    table = {d["key"]: d for d in available_classifiers()}
    req = {"sklearn": "sklearn", "supervised-torch": "torch", "vision": "torchvision", "audio": "torchaudio", "supervised-torch-geometric": "torch_geometric"}
    cid = sorted(table)[c.index % len(table)] if c.chance(0.6) else "knn"
    d = table[cid]
    missing = some_missing(c, ["sklearn", "torch"])
    ok = [b for b in d["preferred_backends"] if req.get(d["backends"][b]["required_extra"]) not in missing]

    def fn():
        from modssc.supervised import available_classifiers, create_classifier

        listed = {x["key"]: sorted(x["backends"]) for x in available_classifiers(available_only=True)}
        every = {x["key"]: sorted(x["backends"]) for x in available_classifiers()}
        try:
            clf = create_classifier(cid)
            made = [type(clf).__module__.split(".")[3], type(clf).__name__]
        except Exception as e:  # noqa: BLE001
            made = ["raise", type(e).__name__, str(e), getattr(e, "extra", None)]
        return [listed, every, made]

    kind, val = run(fn, missing)
    tell = f"{cid} without {sorted(missing)}"
    c.check(kind == "ok", "listing fails", lambda: f"{tell}: {val}")
    listed, every, made = val
    c.check(every == {k: sorted(v["backends"]) for k, v in table.items()}, "the full listing depends on what is installed", lambda: f"{tell}: {every}")
    want = {k: sorted(b for b, s in v["backends"].items() if req.get(s["required_extra"]) not in missing) for k, v in table.items()}
    c.check(listed == want, "available-only listing is not what is available", lambda: f"{tell}: {[(k, listed.get(k), want[k]) for k in want if listed.get(k) != want[k]]}")
    if ok:
        c.check(made[0] == ok[0], "auto does not take the first available preferred backend", lambda: f"{tell}: preferred {d['preferred_backends']}, available {ok}, made {made}")
    else:
        c.check(made[0] == "raise" and made[1] == "OptionalDependencyError", "auto without any available backend", lambda: f"{tell}: {made}")
        named(c, tell, {"extra": made[3], "text": made[2]}, d["backends"][d["preferred_backends"][0]]["required_extra"])
    c.count("auto:" + made[0])
    c.nontrivial(("auto", cid, tuple(sorted(missing))))


# ---------------------------------------------------------------- methods
DEEP = ["adamatch", "adsh", "comatch", "daso", "deep_co_training", "defixmatch", "fixmatch", "flexmatch", "free_match", "mean_teacher", "meta_pseudo_labels", "mixmatch", "noisy_student", "pi_model", "simclr_v2", "softmatch",
        "temporal_ensembling", "trinet", "uda", "vat"]
CLASSIC = ["supervised", "pseudo_label", "self_training", "setred", "co_training", "tri_training", "democratic_co_learning", "s4vm"]


@M.scenario(quick=56, thorough=1000)
def inductive(c):
    mids = CLASSIC * 3 + DEEP
    mid = mids[c.index % len(mids)]
    missing = some_missing(c, ["torch"] if mid in DEEP else ["sklearn", "torch"])
    n = 18
    X, y = c.rng.normal(size=(n, 4)), np.arange(n) % (2 if mid == "s4vm" else 3)
    X[:, 0] += 3 * y
    clf = c.pick(["numpy", "sklearn"])
    needs = {"torch"} if mid in DEEP else ({"sklearn"} if clf == "sklearn" else set())

    def fn():
        from dataclasses import replace

        from modssc.inductive import DeviceSpec, InductiveDataset
        from modssc.inductive.registry import get_method_class

        cls = get_method_class(mid)
        cut = 9
        d = InductiveDataset(X_l=X[:cut], y_l=y[:cut], X_u=X[cut:], views={"v1": {"X_l": X[:cut, :2], "X_u": X[cut:, :2]}, "v2": {"X_l": X[:cut, 2:], "X_u": X[cut:, 2:]}} if mid == "co_training" else None)
        m = cls()
        spec = m.spec
        over = {"classifier_backend": clf, "classifier_id": "knn"} if hasattr(spec, "classifier_backend") else {}
        if hasattr(spec, "classifier_specs"):
            from modssc.inductive.methods.democratic_co_learning import BaseClassifierSpec

            over["classifier_specs"] = tuple(BaseClassifierSpec(classifier_id="knn", classifier_backend=clf, classifier_params={"k": k}) for k in (1, 2, 3))
        m = cls(replace(spec, **{k: v for k, v in over.items() if hasattr(spec, k)}))
        m.fit(d, device=DeviceSpec(device="cpu"), seed=3)
        q = X if mid != "co_training" else InductiveDataset(X_l=X, y_l=y, X_u=None, views={"v1": {"X_l": X[:, :2], "X_u": X[:, :2]}, "v2": {"X_l": X[:, 2:], "X_u": X[:, 2:]}})
        return m.predict_proba(q)

    judge(c, "inductive", (mid, clf if mid in CLASSIC else None), fn, needs, missing, also_ok=("InductiveValidationError",) if mid in DEEP else ())


GNN = ["gcn", "sgc", "graphsage", "appnp", "chebnet", "gcnii", "gat", "h_gcn", "n_gcn", "grand", "grafn", "planetoid", "graphhop"]
TCLASSIC = ["label_propagation", "label_spreading", "laplace_learning", "lazy_random_walk", "dynamic_label_propagation", "graph_mincuts", "poisson_learning", "poisson_mbo", "p_laplace_learning", "tsvm"]
T_NEEDS = {"graph_mincuts": {"scipy"}}


@M.scenario(quick=46, thorough=1000)
def transductive(c):
    mids = TCLASSIC * 2 + GNN
    mid = mids[c.index % len(mids)]
    needs = {"torch"} if mid in GNN else T_NEEDS.get(mid, set())
    missing = some_missing(c, needs | {"torch"})
    n = 12
    y = np.arange(n) % 2
    X = c.rng.normal(size=(n, 3)).astype(np.float32)
    X[:, 0] += 4 * y
    a, b = np.triu_indices(n, 1)
    keep = (y[a] == y[b]) | (c.rng.random(len(a)) < 0.1)
    a, b = a[keep], b[keep]
    ei = np.stack([np.r_[a, b], np.r_[b, a]]).astype(np.int64)
    mask = np.zeros(n, dtype=bool)
    mask[:4] = True

    def fn(backend=None):
        from dataclasses import replace

        from modssc.transductive import get_method_class
        from modssc.graph.artifacts import GraphArtifact, NodeDataset

        cls = get_method_class(mid)
        g = GraphArtifact(n_nodes=n, edge_index=ei, edge_weight=np.ones(ei.shape[1], dtype=np.float32), directed=False, meta={})
        d = NodeDataset(X=X, y=y, graph=g, masks={"train_mask": mask, "labeled_mask": mask, "unlabeled_mask": ~mask, "val_mask": ~mask, "test_mask": ~mask})
        m = cls()
        over = {k: v for k, v in {"backend": backend, "max_epochs": 3, "epochs": 1, "num_walks": 1}.items() if v and hasattr(m.spec, k)}
        if over:
            m = cls(replace(m.spec, **over))
        m.fit(d, device=None, seed=3)
        return m.predict_proba(d)

    fn.__name__ = mid
    base = (lambda: fn("numpy")) if "torch" in missing else None
    judge(c, "transductive", mid, fn, needs, missing, base_fn=base, extra="transductive-torch" if mid in GNN else None)


# ---------------------------------------------------------------- data sets
@M.scenario(quick=30, thorough=600)
def data_sets(c):
    from modssc.data_loader import available_datasets, dataset_info

    lib = {"openml": {"sklearn"}, "hf": {"datasets"}, "tfds": {"tensorflow_datasets"}, "torchvision": {"torchvision"}, "torchaudio": {"torchaudio"}, "pyg": {"torch_geometric"}, "toy": set()}
    ids = sorted(available_datasets()) + ["hf:some/thing", "openml:61", "tfds:mnist", "torchvision:FakeSet", "pyg:Planetoid/Cora", "torchaudio:YESNO"]
    ref = ids[c.index % len(ids)] if c.chance(0.7) else "toy"
    spec = dataset_info(ref)
    needs = lib[spec.provider]
    missing = some_missing(c, needs or {"torch"})
    if not (needs & missing) and spec.provider != "toy":
        missing = closure(needs)

    def fn():
        from modssc.data_loader import available_providers, load_dataset
        from modssc.data_loader import dataset_info as info

        with tempfile.TemporaryDirectory() as t:
            try:
                ds = load_dataset(ref, cache_dir=Path(t), download=True)
            except Exception as e:
                left = sorted(str(p.relative_to(t)) for p in Path(t).rglob("*") if p.is_file() and p.suffix not in (".lock", ".sqlite", ".db") and "index" not in p.name and p.parent.name != "locks")
                if left:
                    raise RuntimeError(f"left behind {left}") from e
                raise
            return [ds.train.X, ds.train.y, info(ref).required_extra, sorted(available_providers())]

    judge(c, "data sets", ref, fn, needs, missing, extra=spec.required_extra)


# ---------------------------------------------------------------- device choice
@M.scenario(quick=60, thorough=1000)
def device_choice(c):
    BROKEN[0] = False
    import types

    cuda = c.pick([None, "absent", True, False, "raise?"])
    mps = c.pick([None, True, False, "unbuilt", "raise", "alloc fails", "odd"])
    no_torch = c.chance(0.2)

    def boom(*a, **k):
        raise RuntimeError("no")

    class Fake:
        def __init__(self, **kw):
            self.__dict__.update(kw)

    t = Fake(zeros=boom if mps == "alloc fails" else (lambda *a, **k: 0))
    if cuda in (True, False):
        t.cuda = types.SimpleNamespace(is_available=lambda: cuda)
    elif cuda == "absent":
        t.cuda = types.SimpleNamespace()
    if mps is not None:
        m = types.SimpleNamespace(is_available=boom if mps == "raise" else (lambda: "yes" if mps == "odd" else mps in (True, "alloc fails", "unbuilt")))
        if mps == "unbuilt":
            m.is_built = lambda: False
        elif c.chance(0.5):
            m.is_built = lambda: True
        t.backends = types.SimpleNamespace(mps=m)
    want = "cpu" if no_torch else "cuda" if cuda is True else "mps" if mps is True else "cpu"
    dev = c.pick(["auto", "auto", "cpu", "cuda", "cuda:1", None, "mps"])
    path = c.pick(["argument", "module"])
    fixed = dev
    missing = closure(["torch"]) if no_torch else frozenset()


    def fn():
        if not no_torch and path == "module":
            sys.modules["torch"] = t
        from modssc.runtime.device import resolve_device_name

        kw = {"torch": None if no_torch else t} if path == "argument" else {}
        return [resolve_device_name(fixed, **kw), resolve_device_name(fixed, **kw)]

    kind, val = run(fn, missing)
    exp = want if dev == "auto" else dev
    c.check(kind == "ok" and val == [exp, exp], "device", lambda: f"{dev} cuda={cuda} mps={mps} torch {'missing' if no_torch else 'present'} by {path}: {val}, expected {exp}")
    c.nontrivial(("device", dev, cuda, mps, no_torch, path))
