"""R03: every cache and model folder is where the environment says, and nothing is written anywhere else."""
import os
import sys
import types
from contextlib import contextmanager
from pathlib import Path

import numpy as np

from vf.core import Inconclusive, Module, short

M = Module(
    "R03",
    rule="Under generated environments (own variables, cache roots, home folder, working directories inside and outside projects) the library's default locations are compared with an own "
    "statement of the precedence, real requests are run without naming a folder and every file that appears is attributed to its cache; model loaders run on recording stand-ins. "
    "Non-trivial: distinct (which setting decided, per cache).",
    preload=["torch", "torchvision", "torchaudio", "modssc.preprocess", "modssc.graph", "modssc.sampling", "modssc.data_loader"],
)
OWN = {"datasets": "MODSSC_CACHE_DIR", "preprocess": "MODSSC_PREPROCESS_CACHE_DIR", "splits": "MODSSC_SPLIT_CACHE_DIR", "graphs": "MODSSC_GRAPH_CACHE_DIR", "graph_views": "MODSSC_GRAPH_VIEWS_CACHE_DIR"}
ALL = [*OWN.values(), "MODSSC_CACHE_ROOT", "MODSSC_MODEL_CACHE_ROOT", "HF_HOME", "SENTENCE_TRANSFORMERS_HOME", "TRANSFORMERS_CACHE", "MODSSC_OPENCLIP_CACHE_DIR", "OPENCLIP_CACHE_DIR", "TORCH_HOME", "MODSSC_TORCH_HOME",
       "MODSSC_HF_LOCAL_FILES_ONLY", "HF_HUB_OFFLINE", "TRANSFORMERS_OFFLINE", "HOME", "XDG_CACHE_HOME", "MODSSC_DATASET_CACHE_DIR"]


@contextmanager
def place(c):
    """Scratch home, working directory and environment; yields (root, env dict to fill, apply)."""
    root = Path(c.tmp()).resolve()
    if any((p / "pyproject.toml").exists() for p in [root, *root.parents]):
        raise Inconclusive("scratch folder lies inside a project")
    old, cwd = {k: os.environ.get(k) for k in ALL}, os.getcwd()
    for k in ALL:
        os.environ.pop(k, None)
    (root / "home").mkdir()
    os.environ["HOME"] = str(root / "home")
    try:
        yield root
    finally:
        os.chdir(cwd)
        for k, v in old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


def spell(c, root, name):
    """A spelling of a folder and the folder it means (relative to the working directory, ~, with dots, absolute)."""
    how = c.pick(["abs", "abs", "home", "rel", "dots"])
    if how == "home":
        return f"~/{name}", root / "home" / name
    if how == "rel":
        return name, Path(os.getcwd()) / name
    if how == "dots":
        return str(root / "x" / ".." / name), root / name
    return str(root / name), root / name


def working_dir(c, root):
    """Working directory, and the project folder found from it (None outside a project)."""
    top = root / "proj"
    deep = top / "a" / "b"
    deep.mkdir(parents=True)
    kind = c.pick(["none", "none", "top", "nested", "here"])
    proj = None
    if kind != "none":
        (top / "pyproject.toml").write_text("[project]\n")
        proj = top
    if kind == "nested":
        (top / "a" / "pyproject.toml").write_text("[project]\n")
    cwd = {"none": deep, "top": c.pick([top, deep]), "nested": c.pick([top, deep, top / "a"]), "here": top}[kind]
    if kind == "nested" and cwd != top:
        proj = top / "a"
    if proj is not None and c.chance(0.5):
        (proj / "modssc_cache").mkdir()
    if proj is not None and c.chance(0.2):
        (proj / "cache").mkdir()
    if proj is not None and proj != top and c.chance(0.3):
        (top / "modssc_cache").mkdir()
    os.chdir(cwd)
    return kind, proj


def setting(c, root, names, p=0.35):
    """Set some variables; name -> folder meant (empty values count as unset)."""
    out = {}
    for n in names:
        if c.chance(p):
            if c.chance(0.15):
                os.environ[n] = ""
                continue
            os.environ[n], out[n] = spell(c, root, n.lower())
    return out


def expected(root, env, proj):
    base = None
    if "MODSSC_CACHE_ROOT" in env:
        base, why = env["MODSSC_CACHE_ROOT"], "root"
    elif proj is not None:
        base, why = proj / ("modssc_cache" if (proj / "modssc_cache").exists() else "cache"), "project"
    else:
        base, why = Path(os.environ.get("XDG_CACHE_HOME") or root / "home" / ".cache") / "modssc", "user"
    out = {}
    for name, var in OWN.items():
        if var in env:
            out[name] = (env[var], "own")
        elif name == "graph_views" and OWN["graphs"] in env:
            out[name] = (env[OWN["graphs"]].parent / "graph_views", "sibling")
        else:
            out[name] = (base / name, why)
    return out


def actual():
    from modssc.data_loader import cache_dir
    from modssc.graph.cache import GraphCache, ViewsCache
    from modssc.preprocess.cache import CacheManager
    from modssc.sampling import default_split_cache_dir

    return {"datasets": cache_dir(), "preprocess": CacheManager.for_dataset("x").root, "splits": default_split_cache_dir(), "graphs": GraphCache.default().root, "graph_views": ViewsCache.default().root}


def build_env(c, root):
    kind, proj = working_dir(c, root)
    if c.chance(0.3):
        os.environ["XDG_CACHE_HOME"] = str(root / "xdg")
    env = setting(c, root, [*OWN.values()], 0.25)
    env.update(setting(c, root, ["MODSSC_CACHE_ROOT"], 0.4))
    env.update(setting(c, root, ["MODSSC_MODEL_CACHE_ROOT", "MODSSC_DATASET_CACHE_DIR"], 0.2))  # neither moves a data cache
    return kind, proj, env


@M.scenario(quick=1500, thorough=40000)
def locations(c):
    with place(c) as root:
        kind, proj, env = build_env(c, root)
        before = sorted(str(p) for p in root.rglob("*"))
        for _ in range(2):
            want, got = expected(root, env, proj), actual()
            for k, (path, why) in want.items():
                c.check(Path(got[k]) == path, f"{k} cache location", lambda: f"{why}: {got[k]} expected {path}; cwd {os.getcwd()} env { {n: os.environ[n] for n in ALL if n in os.environ} }")
                c.check(Path(got[k]).is_absolute(), "cache location is absolute", k)
            dirs = [p for p, why in want.values() if why != "own"]
            c.check(len(set(dirs)) == len(dirs), "two caches share a folder", short(want))
            c.nontrivial((kind, sorted((k, w) for k, (p, w) in want.items())))
            # the environment is read when a location is asked for
            env.update(setting(c, root, c.py.sample([*OWN.values(), "MODSSC_CACHE_ROOT"], 2), 0.8))
            for n in list(env):
                if not os.environ.get(n):
                    del env[n]
        c.check(sorted(str(p) for p in root.rglob("*")) == before, "asking for a location creates something", short(before))


@M.scenario(quick=120, thorough=2500)
def requests(c):
    """Requests that name no folder write to their own cache only."""
    from modssc.data_loader import load_dataset
    from modssc.graph import GraphBuilderSpec, GraphFeaturizerSpec, NodeDataset, build_graph, graph_to_views
    from modssc.preprocess import PreprocessPlan, StepConfig, preprocess
    from modssc.sampling import SamplingPlan, sample

    with place(c) as root:
        kind, proj, env = build_env(c, root)
        want = expected(root, env, proj)
        folders = {k: p for k, (p, _) in want.items()}

        def files():
            return {p: p.stat().st_mtime_ns for p in root.rglob("*") if p.is_file()}

        ds, state = None, files()
        for job in c.py.sample(["datasets", "preprocess", "splits", "graphs", "graph_views"], 5):
            X = c.rng.normal(size=(8, 3))
            if job == "datasets" or ds is None:
                ds = load_dataset("toy", download=True)
                if job != "datasets":
                    state = files()
            if job == "preprocess":
                preprocess(ds, PreprocessPlan(steps=(StepConfig(step_id="core.ensure_2d"),)), seed=1, cache=True)
            elif job == "splits":
                _, path = sample(ds, plan=SamplingPlan.from_dict({"split": {"kind": "holdout", "test_fraction": 0.2}}), seed=0, save=True)
                c.check(folders["splits"] in Path(path).parents, "split saved in its cache", str(path))
            elif job == "graphs":
                build_graph(X, spec=GraphBuilderSpec(scheme="knn", k=2), seed=0, cache=True)
            elif job == "graph_views":
                g = build_graph(X, spec=GraphBuilderSpec(scheme="knn", k=2), seed=0, cache=False)
                graph_to_views(NodeDataset(X=X, y=np.zeros(8, dtype=int), graph=g, masks={}), spec=GraphFeaturizerSpec(views=("attr",)), seed=0, cache=True)
            now = files()
            new = [p for p in now if now[p] != state.get(p)]
            owner = {p: [k for k, f in folders.items() if f in p.parents] for p in new}
            c.check(all(job in o for o in owner.values()), "a request wrote outside its cache", lambda: f"{job}: {[str(p) for p, o in owner.items() if job not in o][:3]} not below {folders[job]}")
            c.check(new or job == "datasets", "a cached request wrote to its cache", lambda: f"{job}: nothing below {folders[job]}")
            c.count("files_attributed", len(new))
            state = now
            if not c.chance(0.3):
                continue
            os.environ.update({"MODSSC_CACHE_ROOT": str(root / f"other{c.py.randrange(3)}")})
            env["MODSSC_CACHE_ROOT"] = Path(os.environ["MODSSC_CACHE_ROOT"])
            want = expected(root, env, proj)
            folders = {k: p for k, (p, _) in want.items()}
        c.nontrivial((kind, sorted((k, w) for k, (p, w) in want.items())))


TRUE, FALSE = ["1", "true", "YES", "on", " 1 ", "anything"], ["", "0", "false", "No", "OFF", " 0 ", "  "]


@M.scenario(quick=600, thorough=15000)
def models(c):
    """Model weights are looked for where the environment says, and only locally when it says so."""
    import torch
    import torchaudio
    import torchvision

    with place(c) as root:
        os.chdir(root)
        env = setting(c, root, ["MODSSC_CACHE_ROOT", "MODSSC_MODEL_CACHE_ROOT", "HF_HOME", "SENTENCE_TRANSFORMERS_HOME", "TRANSFORMERS_CACHE", "MODSSC_OPENCLIP_CACHE_DIR", "OPENCLIP_CACHE_DIR", "TORCH_HOME", "MODSSC_TORCH_HOME"], 0.25)
        off = False
        for n in ("MODSSC_HF_LOCAL_FILES_ONLY", "HF_HUB_OFFLINE", "TRANSFORMERS_OFFLINE"):
            if c.chance(0.3):
                t = c.chance(0.4)
                os.environ[n] = c.pick(TRUE if t else FALSE)
                off |= t
        mroot = env.get("MODSSC_MODEL_CACHE_ROOT") or (env["MODSSC_CACHE_ROOT"] / "models" if "MODSSC_CACHE_ROOT" in env else None)
        hf = env.get("HF_HOME") or (mroot / "hf" if mroot else None)
        st = env.get("SENTENCE_TRANSFORMERS_HOME") or (hf / "sentence_transformers" if hf else None) or env.get("TRANSFORMERS_CACHE")
        oc = env.get("MODSSC_OPENCLIP_CACHE_DIR") or env.get("OPENCLIP_CACHE_DIR") or (mroot / "open_clip" if mroot else None)
        th = env.get("TORCH_HOME") or env.get("MODSSC_TORCH_HOME") or (mroot / "torch" if mroot else None)
        if os.environ.get("TORCH_HOME") == "":
            del os.environ["TORCH_HOME"]  # torch itself reads an empty value as the working directory
        said = {n: os.environ[n] for n in ALL if n in os.environ}
        seen = {}

        class Net(torch.nn.Module):
            def __init__(self):
                super().__init__()
                self.fc = torch.nn.Linear(2, 2)

            def encode(self, texts, **kw):
                return np.zeros((len(texts), 2))

        def make_st(name, device=None, cache_folder=None, local_files_only=False, **kw):
            seen["st"] = (cache_folder, local_files_only)
            return Net()

        def make_oc(name, pretrained=None, cache_dir=None, **kw):
            seen["oc"] = cache_dir
            return Net(), None, None

        class Bundle:
            sample_rate = 16000

            def get_model(self, dl_kwargs=None):
                seen["audio"] = ((dl_kwargs or {}).get("model_dir"), torch.hub.get_dir())
                return Net()

        def get_model(name, weights=None, **kw):
            seen["image"] = torch.hub.get_dir()
            return Net()

        mods = {"sentence_transformers": types.SimpleNamespace(SentenceTransformer=make_st), "open_clip": types.SimpleNamespace(create_model_and_transforms=make_oc)}
        old = {n: sys.modules.get(n) for n in mods}
        sys.modules.update(mods)
        pip, gm, hub = torchaudio.pipelines, torchvision.models.get_model, torch.hub._hub_dir
        torchaudio.pipelines = types.SimpleNamespace(WAV2VEC2_BASE=Bundle())
        torchvision.models.get_model = get_model
        torch.hub._hub_dir = None
        try:
            from modssc.preprocess.models import load_encoder
            from modssc.supervised import create_classifier

            for job in c.py.sample(["st", "oc", "audio", "image"], 4):
                load_encoder({"st": "st:all-MiniLM-L6-v2", "oc": "openclip:ViT-B-32/openai", "audio": "wav2vec2:base", "image": "torchvision:resnet18"}[job], **({"weights": None} if job == "image" else {}))
            assert create_classifier
        finally:
            torchaudio.pipelines, torchvision.models.get_model, torch.hub._hub_dir = pip, gm, hub
            for n, m in old.items():
                if m is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = m
        c.check(seen["st"] == (str(st) if st else None, off), "sentence transformer folder and offline switch", lambda: f"{seen['st']} expected {st, off}: {said}")
        c.check(seen["oc"] == (str(oc) if oc else None), "OpenCLIP folder", lambda: f"{seen['oc']} expected {oc}: {said}")
        hubdir = str(th / "hub") if th else str(root / "home" / ".cache" / "torch" / "hub")
        c.check(Path(seen["image"]).resolve() == Path(hubdir).resolve(), "torchvision weights folder", lambda: f"{seen['image']} expected {hubdir}: {said}")
        c.check(Path(seen["audio"][1]).resolve() == Path(hubdir).resolve(), "torchaudio weights folder", lambda: f"{seen['audio']} expected {hubdir}: {said}")
        c.check(seen["audio"][0] == (str(th / "hub" / "checkpoints") if th else None), "torchaudio checkpoint folder", lambda: f"{seen['audio']} expected {th}: {said}")
        c.nontrivial((sorted(env), off))
