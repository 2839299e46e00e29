"""A02: every augmentation operation changes a sample exactly in the way its definition allows, at the stated rate."""
import math
from collections import Counter

import numpy as np
from scipy.stats import binom
from modssc.data_augmentation.api import build_pipeline
from modssc.data_augmentation.plan import AugmentationPlan, StepConfig
from modssc.data_augmentation.types import AugmentationContext

from vf import auggen
from vf.core import Module

M = Module(
    "A02",
    rule="Each operation runs on tagged samples (every pixel, cell, token, edge and weight distinguishable) over many contexts; the output must be one the definition allows, the extremes of the range "
    "must be reached, and observed frequencies must be possible (exact binomial tail above 1e-10). Non-trivial: distinct (operation, parameters, layout, backend) with a changed output.",
    preload=["torch", "modssc.data_augmentation"],
)


def run(op, params, x, ids, seed=0):
    pipe = build_pipeline(AugmentationPlan(steps=(StepConfig(op, params),)))
    return [pipe.apply(x, ctx=AugmentationContext(seed=seed, sample_id=i, epoch=i % 3)) for i in ids]


def to(backend, a):
    return auggen.torch_().as_tensor(a) if backend == "torch" else a


def back(c, x, out, backend, what):
    """Same container and dtype as the input; returned as an array."""
    c.check(auggen.torch_().is_tensor(out) if backend == "torch" else isinstance(out, np.ndarray), "container", what)
    c.check(out.dtype == x.dtype and tuple(out.shape) == tuple(x.shape), "shape-or-dtype", f"{what}: {out.dtype} {tuple(out.shape)} from {x.dtype} {tuple(x.shape)}")
    return np.asarray(out)


def rate(c, hits, trials, p, what):
    p = min(max(p, 0.0), 1.0)
    tail = min(binom.cdf(hits, trials, p), binom.sf(hits - 1, trials, p))
    c.check(tail > 1e-10, "rate", f"{what}: {hits} of {trials} for probability {p} (tail {tail:.1e})")
    c.count("draws_counted", trials)


def img(c, backend, lay=None, hw=None):
    h, w = hw or (c.py.randint(5, 11), c.py.randint(5, 11))
    ch = c.pick([1, 3, 4])
    lay = lay or c.pick(["hw", "hwc", "chw"])
    a = np.arange(1, h * w * ch + 1).reshape(ch, h, w).astype(c.pick(["float32", "float64", "int64", "uint8"] if h * w * ch < 250 else ["float32", "float64", "int64"]))
    if lay == "hw":
        a = a[0]
    if lay == "hwc":
        a = np.ascontiguousarray(a.transpose(1, 2, 0))
    return to(backend, a), lay, h, w


def chw(a, lay):
    return a[None] if lay == "hw" else a.transpose(2, 0, 1) if lay == "hwc" else a


@M.scenario(quick=120, thorough=4000)
def flip(c):
    backend = c.pick(["numpy", "torch"])
    x, lay, h, w = img(c, backend)
    p = c.pick([0.0, 0.2, 0.5, 0.7, 1.0])
    desc = f"flip p={p} {lay} {backend} {tuple(x.shape)}"
    xs = chw(np.asarray(x), lay)
    n, k = 240, 0
    for o in run("vision.random_horizontal_flip", {"p": p}, x, range(n), seed=c.py.randrange(10**6)):
        a = chw(back(c, x, o, backend, desc), lay)
        same, mirror = np.array_equal(a, xs), np.array_equal(a, xs[:, :, ::-1])
        c.check(same or mirror, "not-a-mirror-image", desc)
        k += mirror
    rate(c, k, n, p, desc)
    c.nontrivial(["flip", p, lay, backend])


@M.scenario(quick=160, thorough=5000)
def crop(c):
    backend = c.pick(["numpy", "torch"])
    x, lay, h, w = img(c, backend)
    if backend == "torch" and x.dtype == auggen.torch_().uint8:
        x = x.float()
    pad = c.pick([0, 1, 1, 2, 3, 4])
    params = c.pick([{"pad": pad}, {"padding": pad}])
    desc = f"crop {params} {lay} {backend} {tuple(x.shape)}"
    P = np.pad(chw(np.asarray(x), lay), ((0, 0), (pad, pad), (pad, pad)), mode="reflect")
    n = 60 * (2 * pad + 1)
    spots, clear = Counter(), True
    for o in run("vision.random_crop_pad", params, x, range(n), seed=c.py.randrange(10**6)):
        a = chw(back(c, x, o, backend, desc), lay)
        at = [(i, j) for i in range(2 * pad + 1) for j in range(2 * pad + 1) if np.array_equal(P[:, i : i + h, j : j + w], a)]
        c.check(at, "not-a-window", desc)
        clear = clear and len(at) == 1
        spots[at[0]] += 1
    if clear:
        for k, axis in ((0, "row"), (1, "column")):
            seen = Counter()
            for s, m in spots.items():
                seen[s[k]] += m
            for v in range(2 * pad + 1):
                rate(c, seen[v], n, 1 / (2 * pad + 1), f"{desc}: {axis} offset {v}")
        c.nontrivial(["crop", params, lay, backend])


@M.scenario(quick=160, thorough=5000)
def cutout(c):
    backend = c.pick(["numpy", "torch"])
    x, lay, h, w = img(c, backend)
    fill = 0
    if c.chance(0.5):
        f = c.pick([0.2, 0.5, 0.75, 1.0])
        params, L, holes = {"frac": f}, max(1, int(round(f * min(h, w)))), 1
    else:
        L, holes = c.pick([1, 2, 3, 4, 30]), c.py.randint(1, 3)
        params = {"length": L, "n_holes": holes}
    if c.chance(0.4) and str(x.dtype).endswith(("float32", "float64")):
        fill = params["fill"] = c.pick([-7.5, -1.0])
    desc = f"cutout {params} {lay} {backend} {tuple(x.shape)}"
    xs = chw(np.asarray(x), lay)
    lh, lw = min(L, h), min(L, w)
    n = 40 * max(h - lh + 1, w - lw + 1)
    tops, lefts = Counter(), Counter()
    for o in run("vision.cutout", params, x, range(n), seed=c.py.randrange(10**6)):
        a = chw(back(c, x, o, backend, desc), lay)
        hole = (a == fill).all(0)
        c.check(np.array_equal((a == fill).any(0), hole), "hole-differs-between-channels", desc)
        c.check((a[:, ~hole] == xs[:, ~hole]).all(), "pixel-outside-hole-changed", desc)
        full = [(i, j) for i in range(h - lh + 1) for j in range(w - lw + 1) if hole[i : i + lh, j : j + lw].all()]
        cover = np.zeros_like(hole)
        for i, j in full:
            cover[i : i + lh, j : j + lw] = True
        c.check(full and np.array_equal(cover, hole) and hole.sum() <= holes * lh * lw, "hole-shape", f"{desc}: {hole.astype(int)}")
        if holes == 1:
            c.check(len(full) == 1, "hole-shape", desc)
            tops[full[0][0]] += 1
            lefts[full[0][1]] += 1
    if holes == 1:
        for cnt, m, axis in ((tops, h - lh + 1, "top"), (lefts, w - lw + 1, "left")):
            for v in range(m):
                rate(c, cnt[v], n, 1 / m, f"{desc}: {axis} {v}")
    off = c.pick([{"frac": 0.0}, {"length": 0}, {"n_holes": 0}])
    c.check(np.array_equal(np.asarray(run("vision.cutout", off, x, [1])[0]), np.asarray(x)), "switched-off-still-cuts", f"{off}")
    c.nontrivial(["cutout", params, lay, backend])


@M.scenario(quick=120, thorough=4000)
def noise(c):
    backend = c.pick(["numpy", "torch"])
    op = c.pick(["vision.gaussian_noise", "tabular.gaussian_noise", "audio.add_noise"])
    std = c.pick([0.005, 0.05, 0.1, 1.0, 3.0])
    shape = c.pick([(40, 50), (3, 30, 20), (2000,)]) if op != "vision.gaussian_noise" else c.pick([(40, 50), (3, 30, 20), (30, 20, 3)])
    base = c.rng.normal(size=shape).astype(c.pick(["float32", "float64"]))
    x = to(backend, base)
    desc = f"{op} std={std} {backend} {shape} {base.dtype}"
    eps = []
    for o in run(op, {"std": std}, x, range(4), seed=c.py.randrange(10**6)):
        eps.append((back(c, x, o, backend, desc).astype("float64") - base).ravel() / std)
    n = eps[0].size
    for e in eps:
        c.check(abs(e.mean()) < 6 / math.sqrt(n), "noise-mean", f"{desc}: {e.mean()}")
        c.check(abs((e**2).mean() - 1) < 6 * math.sqrt(2 / n) + 1e-3, "noise-variance", f"{desc}: {(e**2).mean()}")
        for t, q in ((0.5, 0.308538), (1.0, 0.158655), (2.0, 0.0227501)):
            rate(c, int((e > t).sum()), n, q, f"{desc}: above {t} sd")
        c.check(abs((e[1:] * e[:-1]).mean()) < 6 / math.sqrt(n), "noise-correlated", desc)
    for i in range(4):
        for j in range(i):
            c.check(abs((eps[i] * eps[j]).mean()) < 6 / math.sqrt(n), "noise-correlated", f"{desc}: contexts {i} and {j}")
    c.check(np.array_equal(np.asarray(run(op, {"std": 0.0}, x, [3])[0]), base), "zero-noise-changes", desc)
    c.nontrivial([op, std, backend, len(shape)])


@M.scenario(quick=120, thorough=4000)
def cell_dropout(c):
    backend = c.pick(["numpy", "torch"])
    op = c.pick(["tabular.feature_dropout", "tabular.swap_noise", "graph.feature_mask"])
    p = c.pick([0.0, 0.1, 0.15, 0.5, 0.9, 1.0])
    shape = c.pick([(60, 40), (2400,), (1, 2400)]) if op != "graph.feature_mask" else (60, 40)
    base = (c.rng.normal(size=shape) + 50).astype(c.pick(["float32", "float64"]))
    x = to(backend, base)
    desc = f"{op} p={p} {backend} {shape}"
    g = x
    if op == "graph.feature_mask":
        f = {"x": x, "edge_index": to(backend, np.array([[0, 1, 2], [1, 2, 0]]))}
        if c.chance(0.7):
            f["edge_weight"] = to(backend, np.array([1.5, 2.5, 3.5]))
        form = c.pick(["dict", "sample", "attr"])
        g = {**f, "other": 1} if form == "dict" else auggen.GraphSample(meta={"other": 1}, **f) if form == "sample" else auggen.Attr(**f, other=1)
        desc += " " + form
    hits = np.zeros(shape, int)
    k = 8
    for o in run(op, {"p": p}, g, range(k), seed=c.py.randrange(10**6)):
        if op == "graph.feature_mask":
            c.check(type(o) is type(g), "container", desc)
            get = (lambda t, k: t.get(k)) if isinstance(g, dict) else (lambda t, k: getattr(t, k, None))
            for key in ("edge_index", "edge_weight"):
                v, want = get(o, key), f.get(key)
                c.check((v is None) == (want is None) and (want is None or np.array_equal(np.asarray(v), np.asarray(want))), "rest-of-graph-changed", f"{desc}: {key} {v}")
            c.check((o.meta["other"] if form == "sample" else get(o, "other")) == 1, "rest-of-graph-changed", desc)
            o = get(o, "x")
        a = back(c, x, o, backend, desc)
        ch = a != base
        hits += ch
        if op == "tabular.swap_noise":
            e = a[ch].astype("float64")
            if e.size:
                c.check(abs(e.mean()) < 6 / math.sqrt(e.size) and abs((e**2).mean() - 1) < 6 * math.sqrt(2 / e.size), "swap-noise-not-standard-normal", f"{desc}: {e.mean()} {e.var()}")
        else:
            c.check((a[ch] == 0).all(), "cell-neither-kept-nor-zero", desc)
    rate(c, int(hits.sum()), k * hits.size, p, desc)
    flat = hits.reshape(-1, hits.shape[-1]) if hits.shape[0] > 1 else hits.reshape(-1, 1)
    for axis in (0, 1):
        s = flat.sum(axis)
        m = flat.shape[axis]
        for v in (int(s.min()), int(s.max())):
            rate(c, v, k * m, p, f"{desc}: cells are not dropped one by one")
    c.nontrivial([op, p, backend, len(shape)])


@M.scenario(quick=120, thorough=4000)
def time_shift(c):
    backend = c.pick(["numpy", "torch"])
    n = c.py.randint(4, 24)
    f = c.pick([0.0, 0.05, 0.1, 0.25, 0.5, 1.0])
    a = np.arange(1, 2 * n + 1, dtype="float32").reshape(2, n)
    a = a[0] if c.chance(0.5) else a
    x = to(backend, a)
    desc = f"time_shift {f} {backend} {a.shape}"
    lim = int(round(f * n))
    runs = 50 * (2 * lim + 1)
    seen = Counter()
    allowed = {s % n for s in range(-lim, lim + 1)}
    for o in run("audio.time_shift", {"max_frac": f}, x, range(runs), seed=c.py.randrange(10**6)):
        b = back(c, x, o, backend, desc)
        at = [s for s in range(n) if np.array_equal(np.roll(a, s, axis=-1), b)]
        c.check(len(at) == 1, "not-a-rotation", desc)
        c.check(at[0] in allowed, "shifted-too-far", f"{desc}: by {at[0]} of {n}, at most {lim}")
        seen[at[0]] += 1
    for s in allowed:
        ways = sum(1 for v in range(-lim, lim + 1) if v % n == s)
        rate(c, seen[s], runs, ways / (2 * lim + 1), f"{desc}: shift {s}")
    c.nontrivial(["time_shift", f, n, backend])


@M.scenario(quick=160, thorough=5000)
def tokens(c):
    backend = c.pick(["numpy", "torch"])
    pad, mask = c.pick([(0, 1), (0, 999), (5, 0), (-1, 7)])
    rows, n = c.pick([(0, 14), (3, 9), (1, 5)]), None
    shape = (rows[1],) if rows[0] == 0 else rows
    a = (np.arange(int(np.prod(shape))) + 1000).reshape(shape).astype(c.pick(["int64", "int32"]))
    for r in a.reshape(-1, shape[-1]):
        k = c.pick([0, 0, 1, 4, shape[-1] - 1, shape[-1]])
        if k:
            r[-k:] = pad
            if c.chance(0.3):
                r[0] = pad
    x = to(backend, a)
    if c.chance(0.5):
        p = c.pick([0.0, 0.1, 0.5, 1.0])
        desc = f"token_mask p={p} pad={pad} mask={mask} {backend}"
        runs = 150
        hit = np.zeros(shape, int)
        for o in run("text.token_mask", {"p": p, "mask_token_id": mask, "pad_token_id": pad}, x, range(runs), seed=c.py.randrange(10**6)):
            b = back(c, x, o, backend, desc)
            ch = b != a
            c.check((b[ch] == mask).all(), "token-invented", desc)
            c.check(not (ch & (a == pad)).any(), "padding-masked", desc)
            hit += ch
        for h in hit[a != pad]:
            rate(c, int(h), runs, p, desc)
        c.nontrivial(["token_mask", p, pad, mask, backend, a.ndim])
    else:
        k = c.pick([0, 1, 1, 2, 5])
        desc = f"token_swap n={k} pad={pad} {backend} {a.tolist()}"
        runs = 150
        moved = np.zeros(shape, int)
        for o in run("text.token_swap", {"n_swaps": k, "pad_token_id": pad}, x, range(runs), seed=c.py.randrange(10**6)):
            b = back(c, x, o, backend, desc)
            for i, (ra, rb) in enumerate(zip(a.reshape(-1, shape[-1]), b.reshape(-1, shape[-1]), strict=True)):
                ch = ra != rb
                valid = int((ra != pad).sum())
                c.check(np.array_equal(np.sort(ra), np.sort(rb)), "tokens-lost", f"{desc} -> {b.tolist()}")
                c.check(not (ch & (ra == pad)).any(), "padding-moved", f"{desc} -> {b.tolist()}")
                c.check(ch.sum() <= 2 * k, "too-many-moved", f"{desc} -> {b.tolist()}")
                if k == 1 and valid >= 2:
                    c.check(ch.sum() == 2, "swap-without-effect", f"{desc} -> {b.tolist()}")
                moved.reshape(-1, shape[-1])[i] += ch
        if k == 1:
            for ra, m in zip(a.reshape(-1, shape[-1]), moved.reshape(-1, shape[-1]), strict=True):
                v = int((ra != pad).sum())
                if v >= 2:
                    for h in m[ra != pad]:
                        rate(c, int(h), runs, 2 / v, desc)
        c.nontrivial(["token_swap", k, pad, backend, a.ndim])


@M.scenario(quick=140, thorough=4000)
def text(c):
    many = c.chance(0.6)
    lines = []
    for _ in range(c.py.randint(1, 4) if many else 1):
        k = c.pick([0, 1, 2, 5, 9])
        w = [f"{c.pick(['W', 'Straße', 'é', 'İx', 'a'])}{i}" for i in range(k)]
        lines.append(c.pick([" ", "  ", "\t", "\n"]).join(w) if k else c.pick(["", "  "]))
    x = lines if many else lines[0]
    if many and c.chance(0.3):
        x = tuple(lines)
    op = c.pick(["text.lowercase", "text.word_dropout", "text.random_swap"])
    p, k = c.pick([0.0, 0.1, 0.5, 1.0]), c.pick([0, 1, 2, 6])
    params = {"text.lowercase": {}, "text.word_dropout": {"p": p}, "text.random_swap": {"n_swaps": k}}[op]
    desc = f"{op} {params} {x!r}"
    runs = 120
    kept = [Counter() for _ in lines]
    for o in run(op, params, x, range(runs), seed=c.py.randrange(10**6)):
        c.check(isinstance(o, str) if not many else len(o) == len(lines), "container", f"{desc} -> {o!r}")
        for i, (s, t) in enumerate(zip(lines, o if many else [o], strict=True)):
            a, b = s.split(), t.split()
            if op == "text.lowercase":
                c.check(t == s.lower(), "not-lowercase", f"{desc} -> {t!r}")
            elif op == "text.word_dropout":
                it = iter(a)
                c.check(all(v in it for v in b), "not-a-subsequence", f"{desc} -> {t!r}")
                c.check(bool(b) == bool(a), "text-emptied", f"{desc} -> {t!r}")
                c.check(p > 0 or a == b, "dropped-at-zero", f"{desc} -> {t!r}")
                kept[i].update(b)
                if p == 1.0:
                    c.check(len(b) == min(1, len(a)), "kept-at-one", f"{desc} -> {t!r}")
            else:
                c.check(sorted(a) == sorted(b), "words-lost", f"{desc} -> {t!r}")
                c.check(sum(u != v for u, v in zip(a, b, strict=True)) <= 2 * k, "too-many-moved", f"{desc} -> {t!r}")
                kept[i]["moved"] += a != b
    for s, cnt in zip(lines, kept, strict=True):
        m = len(s.split())
        if op == "text.word_dropout" and m:
            q = 1 - p + p**m / m  # one word is kept when all would go
            for w in s.split():
                rate(c, cnt[w], runs, q, f"{desc}: {w}")
        if op == "text.random_swap" and k == 1 and m >= 2:
            rate(c, cnt["moved"], runs, 1 - 1 / m, desc)
    c.nontrivial([op, params, many, [len(s.split()) for s in lines]])


@M.scenario(quick=160, thorough=5000)
def edges(c):
    backend = c.pick(["numpy", "torch"])
    g = auggen.graph(c, backend)
    p = c.pick([0.0, 0.2, 0.5, 0.9, 1.0])
    before = auggen.plain(g)
    runs = 100
    get = (lambda o, k: o.get(k)) if isinstance(g, dict) else (lambda o, k: getattr(o, k, None))
    n = get(g, "x").shape[0]

    def pairs(o):
        ei = np.asarray(get(o, "edge_index"))
        ei = ei if ei.shape[0] == 2 else ei.T
        return ei[0] * n + ei[1]

    full = pairs(g)
    ew = get(g, "edge_weight")
    desc = f"edge_dropout p={p} {backend} {type(g).__name__} {full.size} edges"
    kept = Counter()
    for o in run("graph.edge_dropout", {"p": p}, g, range(runs), seed=c.py.randrange(10**6)):
        c.check(type(o) is type(g), "container", desc)
        got = pairs(o)
        it = iter(full.tolist())
        c.check(all(v in it for v in got.tolist()), "edge-invented-or-reordered", f"{desc}: {got} of {full}")
        c.check(p > 0 or got.size == full.size, "dropped-at-zero", desc)
        c.check(p < 1 or got.size == 0, "kept-at-one", desc)
        if p > 0:
            c.check(tuple(get(o, "edge_index").shape) == (2, got.size), "edge-shape", desc)
        w = get(o, "edge_weight")
        c.check((w is None) == (ew is None), "weights-appear-or-vanish", desc)
        if w is not None:
            c.check(np.array_equal(np.asarray(w).ravel(), (got + 1).astype("float32")), "weights-left-their-edges", f"{desc}: {np.asarray(w)} for {got}")
        c.check(auggen.plain(get(o, "x")) == auggen.plain(get(g, "x")), "features-changed", desc)
        rest = o.meta["other"] if hasattr(o, "meta") else get(o, "other")
        c.check(rest == "kept", "rest-of-graph-changed", desc)
        kept.update(got.tolist())
    c.check(auggen.plain(g) == before, "input-changed", desc)
    for e in full.tolist():
        rate(c, kept[e], runs, 1 - p, desc)
    c.nontrivial(["edges", p, backend, type(g).__name__, ew is None])
