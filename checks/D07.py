"""D07: downloading the catalogue does, and reports, exactly what happened to each dataset."""
import sys

from modssc.data_loader import api, download_all_datasets, load_dataset
from modssc.data_loader.catalog import DATASET_CATALOG
from modssc.data_loader.errors import DatasetNotCachedError, OptionalDependencyError, UnknownDatasetError
from modssc.data_loader.types import DatasetSpec

from vf import provreq, upstream
from vf.core import Module, short

M = Module(
    "D07",
    rule="Random catalogues of 3-8 entries over all seven providers (upstream libraries replaced by recording stand-ins, some failing, "
    "some with their library absent), partly cached beforehand, downloaded with random include/exclude/modality/force/skip options "
    "through the API and the CLI. Non-trivial: distinct runs in which at least two different outcomes occurred.",
    preload=["torch_geometric.datasets", "torchvision.datasets", "torchaudio.datasets", "datasets"],
)

SOURCES = [  # uri, kwargs, library to hide, extra, name in the upstream log
    ("toy:default", {"seed": 1}, None, None, None),
    ("toy:default", {"seed": 2, "n_samples": 30}, None, None, None),
    ("hf:nn", {}, "datasets", "hf", ("hf", "nn")),
    ("hf:mm", {"text_column": "body"}, "datasets", "hf", ("hf", "mm")),
    ("openml:12", {}, None, None, ("openml", None, 12)),
    ("openml:name=bb", {"class_filter": ["k1", "k2"]}, None, None, ("openml", "bb", None)),
    ("torchvision:VFVision", {}, None, None, ("torchvision", "VFVision")),
    ("torchaudio:VFAudio", {"max_train_samples": 7}, None, None, ("torchaudio", "VFAudio")),
    ("pyg:VFGraph/a", {}, None, None, ("pyg", "a")),
    ("tfds:x", {}, "tensorflow_datasets", "tfds", ("tfds", "x")),
]
MODS = ["text", "vision", "tabular", "audio"]


def logname(e):
    return ("openml", e[1], e[3]) if e[0] == "openml" else (e[0], e[1])


@M.scenario(quick=260, thorough=2500)
def catalogue(c):
    up = upstream.Up(n_train=12, n_test=5)
    picks = c.py.sample(SOURCES, c.py.randint(3, 8))
    names = c.py.sample(["b", "a", "z1", "mnist", "A", "d_2", "x-y", "0k", "q"], len(picks))
    cat, mods = {}, {}
    for k, (uri, kw, _, extra, _) in zip(names, picks):
        mods[k] = c.pick(MODS[: c.pick([2, 2, 4])])
        cat[k] = DatasetSpec(key=k, provider=uri.split(":")[0], uri=uri, modality=mods[k], task="classification", description="d", required_extra=extra, source_kwargs=dict(kw))
    src = dict(zip(names, picks))
    hidden = {lib for lib in ("datasets", "tensorflow_datasets") if c.chance(0.35)}
    failing = {p[4] for p in picks if p[4] and p[4][0] in ("hf", "openml") and c.chance(0.3)}
    root, private = c.tmp(), c.tmp()
    saved = dict(DATASET_CATALOG)
    DATASET_CATALOG.clear()
    DATASET_CATALOG.update(cat)
    hid = {}
    try:
        with upstream.installed(up):
            c.check(list(api.available_datasets()) == sorted(cat), "catalogue-list", lambda: f"{api.available_datasets()} of {sorted(cat)}")
            k0 = c.pick(names)
            c.check(api.dataset_info(k0).as_dict() == cat[k0].as_dict(), "catalogue-info", k0)
            c.raises(UnknownDatasetError, lambda: load_dataset("nosuch", cache_dir=root), "unknown-key", "nosuch")
            want = {k: provreq.norm(load_dataset(k, cache_dir=private), private) for k in names}
            # options given with a catalogue key extend and override the catalogue's own, like the URI with all of them
            uri, kw = src[k0][:2]
            more = {"toy": [{"seed": 5}, {"n_samples": 20}], "hf": [{"max_train_samples": 3}, {"text_column": "text"}], "openml": [{"max_samples": 4}, {"class_filter": ["k0"]}], "torchvision": [{"class_filter": [1, 2]}], "torchaudio": [{"max_train_samples": 2}, {"seed": 1}], "pyg": [{"max_nodes": 5}], "tfds": [{}]}
            o = c.pick(more[uri.split(":")[0]])
            d1, d2 = c.tmp(), c.tmp()
            c.check(provreq.norm(load_dataset(k0, cache_dir=d1, options=o), d1) == provreq.norm(load_dataset(uri, cache_dir=d2, options={**kw, **o}), d2), "catalogue-options", lambda: f"{k0} ({uri} {kw}) with {o} differs from {uri} with {({**kw, **o})}")
            pre = {k for k in names if c.chance(0.4)}
            for k in pre:
                load_dataset(k, cache_dir=root)
            inc = c.pick([None, c.py.sample(names, c.py.randint(1, len(names)))])
            if inc is not None and c.chance(0.2):
                inc = inc + [inc[0]]
            exc = c.pick([None, [], c.py.sample(names, c.py.randint(1, 2)), c.py.sample(names, 2), ["nosuch"]])
            mod = c.pick([None, [c.pick(MODS[:2])], c.py.sample(MODS, 2), c.py.sample(MODS, 3), []])
            force, skip, ign = c.chance(0.35), c.chance(0.5), c.chance(0.75)
            cli = c.chance(0.35)
            if cli:
                inc = exc = None
            c.note = {"catalogue": {k: src[k][0] for k in names}, "cached": sorted(pre), "hidden": sorted(hidden), "failing": sorted(map(str, failing)), "include": inc, "exclude": exc, "modalities": mod, "force": force, "skip_cached": skip, "ignore_missing_extras": ign, "cli": cli}
            keys = sorted({k for k in (names if inc is None else inc)} - set(exc or []))
            if mod:
                keys = [k for k in keys if mods[k] in mod]
            exp = {"downloaded": [], "cached": [], "missing": [], "failed": []}
            fetched, stop = set(), None
            for k in keys:
                lib, name = src[k][2], src[k][4]
                if k in pre and skip:
                    exp["cached"].append(k)
                elif k in pre and not force:
                    exp["downloaded"].append(k)
                elif lib in hidden and lib is not None:
                    exp["missing"].append(k)
                    if not ign:
                        stop = k
                        break
                elif name in failing:
                    exp["failed"].append(k)
                    fetched.add(name)
                else:
                    exp["downloaded"].append(k)
                    if name:
                        fetched.add(name)
            import sklearn.datasets as skd

            import datasets as hfd

            real_o, real_h = skd.fetch_openml, hfd.load_dataset

            def fo(name=None, **kw):
                if ("openml", name, kw.get("data_id")) in failing:
                    up.log.append(("openml", name, None, kw.get("data_id"), None))
                    raise RuntimeError("upstream broke")
                return real_o(name, **kw)

            def fh(name, *a, **kw):
                if ("hf", name) in failing:
                    up.log.append(("hf", name))
                    raise RuntimeError("upstream broke")
                return real_h(name, *a, **kw)

            skd.fetch_openml, hfd.load_dataset = fo, fh
            for lib in hidden:
                hid[lib] = sys.modules.get(lib)
                sys.modules[lib] = None
            up.log.clear()
            raised = rep = res = None
            try:
                if cli:
                    from typer.testing import CliRunner

                    from modssc.cli.app import app

                    a = ["datasets", "download", "--all", "--cache-dir", str(root)]
                    a += ["--force"] * force + ["--skip-cached"] * skip + ([] if ign else ["--no-ignore-missing-extras"])
                    for m in mod or []:
                        a += ["--modalities", m]
                    res = CliRunner().invoke(app, a)
                else:
                    rep = download_all_datasets(cache_dir=root, force=force, include=inc, exclude=exc, modalities=mod, ignore_missing_extras=ign, skip_cached=skip)
            except OptionalDependencyError as e:
                raised = e
            finally:
                for lib in list(hid):
                    old = hid.pop(lib)
                    if old is None:
                        sys.modules.pop(lib, None)
                    else:
                        sys.modules[lib] = old
                skd.fetch_openml, hfd.load_dataset = real_o, real_h
            c.count("datasets_requested", len(keys))
            asked = {logname(e) for e in up.log}
            c.check(asked == fetched, "upstream-contacted", lambda: f"sources asked {sorted(map(str, asked))}, expected {sorted(map(str, fetched))}")
            if cli:
                code = 1 if stop else (2 if exp["failed"] else 0)
                c.check((res.exit_code == 0) == (code == 0), "cli-exit", lambda: f"exit {res.exit_code}, want {code}: {res.output[-300:]}")
                if not stop:
                    for k in exp["failed"]:
                        c.check(any(line.startswith(f"{k}: ") and "upstream broke" in line for line in res.output.splitlines()), "cli-report", lambda: f"failure of {k} not reported: {res.output[-400:]}")
                    for k in exp["missing"]:
                        c.check(any(line.startswith(f"{src[k][3]}: ") and k in line for line in res.output.splitlines()), "cli-report", lambda: f"missing extra of {k} not reported: {res.output[-400:]}")
            elif stop:
                c.check(raised is not None, "missing-extra-swallowed", lambda: f"{stop} needs an absent library, ignore_missing_extras=False, and no error was raised")
                c.check(raised.extra == src[stop][3], "wrong-extra", lambda: f"{raised.extra!r} for {stop}")
            else:
                c.check(raised is None, "missing-extra-raised", lambda: f"{raised!r} although missing extras are to be ignored")
                got = {"downloaded": list(rep.downloaded), "cached": list(rep.skipped_already_cached), "missing": list(rep.skipped_missing_extras), "failed": list(rep.failed)}
                c.check(got == exp, "report", lambda: f"reported {got}, happened {exp}")
                me = {}
                for k in exp["missing"]:
                    me.setdefault(src[k][3], []).append(k)
                c.check({k: list(v) for k, v in rep.missing_extras.items()} == me, "report-extras", lambda: f"{rep.missing_extras} want {me}")
                c.check(all("upstream broke" in v for v in rep.failed.values()), "report-reason", lambda: short(rep.failed))
            # what the cache holds now
            for k in names:
                held = k in pre or k in exp["downloaded"]
                if k in pre and force and k in exp["failed"] + exp["missing"]:
                    continue  # a refresh that failed: D02
                if held:
                    c.check(provreq.norm(load_dataset(k, cache_dir=root, download=False), root) == want[k], "content", lambda: f"{k} differs from its own download")
                else:
                    c.raises(DatasetNotCachedError, lambda: load_dataset(k, cache_dir=root, download=False), "phantom-entry", f"{k} was not downloaded")
                c.count("entries_verified")
    finally:
        DATASET_CATALOG.clear()
        DATASET_CATALOG.update(saved)
    if sum(bool(v) for v in exp.values()) >= 2:
        c.nontrivial(c.note)
    c.sample({"outcome": exp, "options": {k: c.note[k] for k in ("include", "exclude", "modalities", "force", "skip_cached", "cli")}})
