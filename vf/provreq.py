"""Random requests to every data provider, with an oracle of what each must return (vf.upstream)."""
from __future__ import annotations

import numpy as np


def request(c):
    """(dataset_id, options) over all providers; options come in the spellings users write."""
    prov = c.pick(["hf", "openml", "torchvision", "torchaudio", "pyg", "tfds", "toy"])
    o = {}
    lim = lambda: c.pick([None, 1, 3, 7, 1000, 0])
    if prov == "hf":
        ref = "hf:" + c.pick(["nn", "mm", "nn/cfg", "nn/cfg2"])
        if c.chance(0.2) and "/" not in ref:
            o["config"] = c.pick(["cfg", "cfg2"])
        if c.chance(0.3):
            o["text_column"] = "body"
        if c.chance(0.3):
            o["label_column"] = "stars"
        if c.chance(0.3):
            o["prefer_test_split"] = c.chance(0.5)
        keys, labels = ("max_train_samples", "max_test_samples"), [0, 1, 2, 3]
    elif prov == "openml":
        ref = "openml:" + c.pick(["12", "13", "name=aa", "name=aa,version=2", "name=bb", "data_id=12"])
        if c.chance(0.2):
            o["version"] = c.pick([1, 2])
        if c.chance(0.2):
            o["target_column"] = c.pick(["t1", "t2"])
        keys, labels = ("max_samples",), ["k0", "k1", "k2", "k3"]
    elif prov == "torchvision":
        ref = "torchvision:" + c.pick(["VFVision", "VFVision2"])
        keys, labels = ("max_train_samples", "max_test_samples"), [0, 1, 2, 3]
    elif prov == "torchaudio":
        ref = "torchaudio:" + c.pick(["VFAudio", "VFAudio2"])
        keys = ("max_train_samples", "max_test_samples")
        labels = ["class0", "class1", "class2"] if ref.endswith("VFAudio") else ["lab0", "lab1", "lab2"]
    elif prov == "pyg":
        ref = "pyg:VFGraph" + c.pick(["", "/a", "/b"])
        keys, labels = ("max_nodes",), [0, 1, 2, 3]
    elif prov == "tfds":
        ref = "tfds:" + c.pick(["x", "y", "x/1.0.0", "x/2.0.0"])
        return prov, ref, o
    else:
        ref = "toy"
        for k, vs in (("n_samples", [10, 12]), ("n_features", [2, 3]), ("n_classes", [2, 3]), ("seed", [0, 1]), ("official_test", [True, False]), ("test_size", [0.2, 0.3])):
            if c.chance(0.4):
                o[k] = c.pick(vs)
        return prov, ref, o
    for k in keys:
        if c.chance(0.5):
            v = lim()
            if v is not None or c.chance(0.3):
                o[k] = v
    if c.chance(0.5):
        f = c.py.sample(labels, c.py.randint(1, 3))
        if c.chance(0.2):  # long lists: every class, or classes nobody has
            f = f + [x for x in (["k9", "k8", "k7"] if isinstance(labels[0], str) else [9, 8, 7])]
            c.py.shuffle(f)
        o["class_filter"] = c.pick([f, f, f[0], tuple(f)])
    if c.chance(0.6):
        o["seed"] = c.py.randrange(4)
    return prov, ref, o


def norm(ds, root):
    """Plain comparable content of a dataset, independent of the cache folder it sits in."""
    root = str(root)

    def arr(a):
        if a is None:
            return None
        a = np.asarray(a)
        if a.dtype == object:
            return ["obj", list(a.shape), [x.replace(root, "<root>") if isinstance(x, str) else (np.asarray(x).tolist() if isinstance(x, np.ndarray) else x) for x in a.ravel().tolist()]]
        return [str(a.dtype), list(a.shape), a.ravel().tolist()]

    def split(s):
        if s is None:
            return None
        return {"X": arr(s.X), "y": arr(s.y), "edges": arr(s.edges), "masks": None if s.masks is None else {k: arr(v) for k, v in sorted(s.masks.items())}}

    return {"train": split(ds.train), "test": split(ds.test)}


def rows(X, prov):
    """Identity of each row in the upstream part it came from: (part, index)."""
    X = np.asarray(X)
    out = []
    for x in X:
        if prov == "hf":
            src, part, i = x.rsplit("/", 2)
            out.append((part, int(i.split(" ")[0])))
        elif prov == "torchvision":
            out.append(("?", int(np.asarray(x).reshape(-1)[0])))
        elif prov == "torchaudio" and isinstance(x, str):
            out.append(("?", int(x.rsplit("/", 1)[1].split(".")[0])))
        elif prov == "pyg":
            out.append(("?", int(np.asarray(x).reshape(-1)[0])))
        else:
            v = int(float(np.asarray(x).reshape(-1)[0]))
            out.append(("test" if v >= 1000 else "train", v % 1000))
    return out


def upstream_labels(up, prov, ref, o, part):
    """All labels of the upstream part a request refers to (in upstream order)."""
    if prov == "hf":
        name, _, cfg = ref[3:].partition("/")
        cfg = cfg or o.get("config")
        src = ("hf2" if o.get("label_column") == "stars" else "hf", name, cfg)
        return list(up.part(src, part, "text")[1])
    if prov == "openml":
        r = ref[7:]
        d = {}
        if r.isdigit():
            d["data_id"] = int(r)
        else:
            d = dict(p.split("=") for p in r.split(","))
            if "data_id" in d:
                d = {"data_id": int(d["data_id"])}
            if "version" in d:
                d["version"] = int(d["version"])
        d.update({k: o[k] for k in ("version",) if k in o})
        X, y = up.part(("openml", d.get("name"), d.get("data_id"), d.get("version", "active"), o.get("target_column") or "default-target"), "train", "vec")
        return [f"k{v}" for v in y]
    if prov == "torchvision":
        return list(up.part(("tv", ref[12:]), part, "img")[1])
    if prov == "torchaudio":
        if ref.endswith("VFAudio"):
            return [f"class{v}" for v in up.part(("ta", "VFAudio"), part, "text")[1]]
        return [f"lab{v}" for v in up.part(("ta", "VFAudio2"), "train", "vec")[1]]
    if prov == "pyg":
        return list(up.graph(("pyg", ref.partition("/")[2] or "a"))[1])
    if prov == "tfds":
        return list(up.part(("tfds", ref[5:].replace("/", ":"), True), part, "vec")[1])
    raise AssertionError(prov)
