"""P05: each preprocessing step computes what its definition says, judged by independent reference code."""
import hashlib
import math
from collections import Counter

import numpy as np
from modssc.data_loader.types import LoadedDataset, Split
from modssc.preprocess import preprocess
from modssc.preprocess.plan import PreprocessPlan
from modssc.preprocess.registry import default_step_registry
from modssc.preprocess.store import ArtifactStore

from vf import ppgen
from vf.core import Module
from vf.ppgen import S

M = Module(
    "P05",
    rule="Each built-in step runs on generated train and test data (shapes, dtypes, missing values, unseen categories and words, odd layouts) and its output "
    "is compared with a direct reference computation from the fit rows. Non-trivial: distinct (step, parameters, data shape class).",
    preload=["torch", "torchaudio", "sklearn.preprocessing", "sklearn.impute", "sklearn.feature_extraction.text", "modssc.preprocess"],
)


def run(c, modality, Xtr, Xte, steps, fit=None, seed=0, out="features.X", ytr=None, yte=None, edges=None, edges_te=None):
    n, m = len(Xtr), len(Xte)
    ds = LoadedDataset(
        train=Split(X=Xtr, y=np.arange(n) % 2 if ytr is None else ytr, edges=edges),
        test=Split(X=Xte, y=np.arange(m) % 2 if yte is None else yte, edges=edges_te),
        meta={"modality": modality, "dataset_fingerprint": "p05"})
    return preprocess(ds, PreprocessPlan(steps=tuple(steps), output_key=out), fit_indices=fit, seed=seed, cache=False)


def num(c, n, d, nan=False, dtype="float64"):
    X = c.rng.normal(size=(n, d)) * c.pick([1.0, 10.0]) + c.pick([0.0, 5.0])
    if nan:
        X[c.rng.random(X.shape) < 0.2] = np.nan
    return X.astype(dtype)


def fits(c, n, lo=3):
    f = c.rng.choice(n, size=c.py.randint(min(lo, n), n), replace=False)
    return f if c.chance(0.5) else np.sort(f)


def near(c, got, want, mech, msg, rtol=2e-5):
    got, want = np.asarray(got), np.asarray(want)
    c.check(got.shape == want.shape, mech, lambda: f"{msg}: shape {got.shape} != {want.shape}")
    g, w = got.astype(np.float64), want.astype(np.float64)
    fin = np.isfinite(w)
    c.check((np.isfinite(g) == fin).all(), mech, lambda: f"{msg}: non-finite pattern differs")
    scale = max(1e-12, float(np.abs(w[fin]).max()) if fin.any() else 1.0)
    err = float(np.abs(g[fin] - w[fin]).max()) if fin.any() else 0.0
    c.check(err <= rtol * scale, mech, lambda: f"{msg}: error {err:.3g} at scale {scale:.3g}")


@M.scenario(quick=480, thorough=3000)
def scaler_impute(c):
    n, m, d = c.py.randint(5, 30), c.py.randint(1, 9), c.py.randint(1, 6)
    nan = c.chance(0.5)
    X, T = num(c, n, d, nan), num(c, m, d, nan)
    if c.chance(0.3):
        X[:, 0] = 4.0  # constant column
    fit = fits(c, n)
    if c.chance(0.5):
        wm, ws = c.chance(0.8), c.chance(0.8)
        r = run(c, "tabular", X, T, [S("tabular.standard_scaler", with_mean=wm, with_std=ws)], fit)
        F = X[fit]
        with np.errstate(all="ignore"):
            import warnings

            warnings.simplefilter("ignore")
            mu = np.nanmean(F, axis=0) if wm else np.zeros(d)
            sd = np.nanstd(F, axis=0)
        sd = np.where(sd < 1e-9, 1.0, sd) if ws else np.ones(d)
        seen = ~np.isnan(F).all(axis=0)
        for got, raw, part in ((r.dataset.train.X, X, "train"), (r.dataset.test.X, T, "test")):
            want = (raw - mu) / sd
            near(c, got[:, seen], want[:, seen], "standard-scaler", f"{part} wm={wm} ws={ws} fit={len(fit)}/{n}")
        c.nontrivial(("scaler", wm, ws, nan, n, len(fit)))
        return
    strat = c.pick(["mean", "median", "most_frequent", "constant"])
    if strat == "most_frequent":
        X, T = np.round(X), np.round(T)
    kw = {"fill_value": -7.5} if strat == "constant" else {}
    r = run(c, "tabular", X, T, [S("tabular.impute", strategy=strat, **kw)], fit)
    F = X[fit]
    seen = ~np.isnan(F).all(axis=0)
    vals = []
    for j in range(d):
        col = F[~np.isnan(F[:, j]), j]
        if strat == "constant":
            vals.append(-7.5)
        elif not col.size:
            vals.append(np.nan)
        elif strat == "mean":
            vals.append(col.mean())
        elif strat == "median":
            vals.append(np.median(col))
        else:
            u, k = np.unique(col, return_counts=True)
            vals.append(u[np.argmax(k)])
    vals = np.array(vals)
    if not seen.all():
        c.count("column_unseen_in_fit")
        return
    for got, raw, part in ((r.dataset.train.X, X, "train"), (r.dataset.test.X, T, "test")):
        near(c, got, np.where(np.isnan(raw), vals[None, :], raw), "impute", f"{part} {strat}")
    c.nontrivial(("impute", strat, nan, n, len(fit)))


@M.scenario(quick=360, thorough=2500)
def pca(c):
    n, m, d = c.py.randint(6, 30), c.py.randint(1, 9), c.py.randint(1, 8)
    nan = c.chance(0.4)
    base = c.rng.normal(size=(n + m, d)) * (3.0 ** -np.arange(d)) @ np.linalg.qr(c.rng.normal(size=(d, d)))[0] + c.pick([0.0, 2.0])
    if nan:
        base[c.rng.random(base.shape) < 0.1] = np.nan
        if c.chance(0.2):
            base[0, 0] = np.inf
    X, T = base[:n].astype(c.pick(["float64", "float32"])), base[n:]
    T = T.astype(X.dtype)
    fit = fits(c, n)
    k, center = c.py.randint(1, d + 2), c.chance(0.7)
    r = run(c, "tabular", X, T, [S("core.ensure_2d"), S("core.pca", n_components=k, center=center)], fit)
    F = X[fit].astype(np.float64)
    ok = np.isfinite(F)
    imp = np.array([F[ok[:, j], j].mean() if ok[:, j].any() else 0.0 for j in range(d)])
    Fi = np.where(ok, F, imp)
    mu = Fi.mean(axis=0) if center else np.zeros(d)
    _, s, vt = np.linalg.svd(Fi - mu, full_matrices=False)
    kk = max(1, min(k, vt.shape[0], d))
    msg = f"n={n} fit={len(fit)} d={d} k={k} center={center} nan={nan}"
    Zt, Ze = r.dataset.train.X, r.dataset.test.X
    c.check(Zt.shape == (n, kk) and Ze.shape == (m, kk), "pca-shape", f"{msg}: {Zt.shape} {Ze.shape}")
    gap = [s[j] - (s[j + 1] if j + 1 < len(s) else 0.0) for j in range(len(s))]
    top = s[0] if len(s) else 1.0
    for j in range(kk):
        # a component is defined up to sign where the spectrum has gaps around it
        left = gap[j - 1] if j else np.inf
        if min(left, gap[j]) < 1e-4 * max(top, 1e-9) or s[j] < 1e-4 * max(top, 1e-9):
            c.count("component_not_unique")
            continue
        for Z, raw, part in ((Zt, X, "train"), (Ze, T, "test")):
            ri = np.where(np.isfinite(raw), raw, imp).astype(np.float64)
            want = (ri - mu) @ vt[j]
            sign = 1.0 if np.dot(want, Z[:, j]) >= 0 else -1.0
            near(c, sign * Z[:, j], want, "pca-scores", f"{msg} {part} component {j}", rtol=1e-3)
        if j == 0 and len(fit) > 1:  # one sign for train and test together
            wt, we = (np.where(np.isfinite(X), X, imp) - mu) @ vt[0], (np.where(np.isfinite(T), T, imp) - mu) @ vt[0]
            a, b = float(np.dot(wt, Zt[:, 0])), float(np.dot(we, Ze[:, 0]))
            if abs(b) > 1e-3 * np.abs(we).max() ** 2 and abs(b) > 1e-9:
                c.check(a * b > 0, "pca-train-test-disagree", msg)
    c.nontrivial(("pca", n, len(fit), d, k, center, nan))


@M.scenario(quick=160, thorough=1000)
def projection_casts(c):
    n, m, d = c.py.randint(6, 20), c.py.randint(1, 9), c.py.randint(1, 7)
    X, T = num(c, n, d), num(c, m, d)
    k, norm = c.py.randint(1, 40), c.chance(0.6)
    st = [S("core.ensure_2d"), S("core.random_projection", n_components=k, normalize=norm)]
    seed = c.py.randrange(1000)
    r = run(c, "tabular", np.r_[X, np.eye(d)], T, st, np.arange(3), seed)
    W = r.dataset.train.X[n:]
    near(c, r.dataset.train.X[:n], X.astype(np.float32) @ W, "projection-not-linear", f"k={k}", rtol=1e-4)
    near(c, r.dataset.test.X, T.astype(np.float32) @ W, "projection-differs-on-test", f"k={k}", rtol=1e-4)
    if d * k >= 30:
        sd = float(np.sqrt((W.astype(np.float64) ** 2).mean())) * (math.sqrt(k) if norm else 1.0)
        c.check(0.4 < sd < 1.9, "projection-scale", f"entry scale {sd} (k={k}, normalize={norm}, {d * k} entries)")
        r2 = run(c, "tabular", np.r_[X, np.eye(d)], T, st, np.arange(3), seed + 1)
        c.check(not np.array_equal(r2.dataset.train.X[n:], W), "projection-ignores-seed", f"seed {seed} and {seed + 1}")
    c.nontrivial(("projection", d, k, norm))
    # casts and layout steps
    dt = c.pick(["float16", "float32", "float64"])
    r = run(c, "tabular", X, T, [S("core.ensure_2d"), S("core.cast_dtype", dtype=dt)])
    c.check(r.dataset.test.X.dtype == np.dtype(dt) and np.array_equal(r.dataset.test.X, T.astype(dt)), "cast", dt)
    r = run(c, "tabular", X, T, [S("core.ensure_2d"), S("core.cast_fp16")])
    c.check(r.dataset.train.X.dtype == np.float16 and np.array_equal(r.dataset.train.X, X.astype(np.float16)), "cast", "fp16")
    r = run(c, "tabular", X, T, [S("core.ensure_2d"), S("core.to_torch", dtype=dt if dt != "float16" else None)])
    want = T if dt == "float16" else T.astype(dt)
    c.check(np.array_equal(r.dataset.test.X.numpy(), want) and r.dataset.test.X.numpy().dtype == want.dtype, "to-torch", dt)
    nd = c.rng.random((5, *[c.py.randint(2, 6) for _ in range(c.py.randint(0, 3))]))
    r = run(c, "tabular", nd, nd[:2], [S("core.ensure_2d")])
    c.check(r.dataset.train.X.ndim == 2 and np.array_equal(r.dataset.train.X, nd.reshape(5, -1)), "ensure-2d", str(nd.shape))


MISSING = {None, "", "?", "nan", "NA", "null"}


@M.scenario(quick=240, thorough=1500)
def one_hot(c):
    n, m, d = c.py.randint(4, 20), c.py.randint(1, 9), c.py.randint(1, 5)
    kinds = [c.pick(["num", "numstr", "cat", "catmiss"]) for _ in range(d)]

    def make(k, extra):
        X = np.empty((k, d), dtype=object)
        for j, kd in enumerate(kinds):
            for i in range(k):
                if kd == "num":
                    X[i, j] = float(np.round(c.rng.normal(), 3)) if c.rng.random() > 0.1 else None
                elif kd == "numstr":
                    X[i, j] = str(int(c.rng.integers(-5, 50))) if c.rng.random() > 0.1 else "?"
                else:
                    vals = ["red", "green", "blue 2", " red"] + (["", None] if kd == "catmiss" else []) + (["new"] if extra else [])
                    X[i, j] = vals[int(c.rng.integers(0, len(vals)))]
        return X

    X, T = make(n, False), make(m, True)
    fit = fits(c, n)

    def miss(v):
        return v is None or (isinstance(v, str) and v.strip() in {"", "?", "nan", "NaN", "NA", "N/A", "null", "None"})

    def isnum(v):
        try:
            float(v)
            return True
        except (TypeError, ValueError):
            return False

    numeric = [j for j in range(d) if all(miss(X[i, j]) or isnum(X[i, j]) for i in fit)]
    cats = [j for j in range(d) if j not in numeric]
    if any(not miss(v) and not isnum(v) for Z in (X, T) for j in numeric for v in Z[:, j]):
        c.count("fit_rows_look_numeric")
        return
    r = run(c, "tabular", X, T, [S("tabular.one_hot")], fit)
    levels = {j: sorted({"__missing__" if miss(X[i, j]) else str(X[i, j]) for i in fit}) for j in cats}
    for got, raw, part in ((r.dataset.train.X, X, "train"), (r.dataset.test.X, T, "test")):
        rows = []
        for i in range(len(raw)):
            row = [np.nan if miss(raw[i, j]) else float(raw[i, j]) for j in numeric]
            for j in cats:
                v = "__missing__" if miss(raw[i, j]) else str(raw[i, j])
                row += [1.0 if v == lv else 0.0 for lv in levels[j]]
            rows.append(row)
        near(c, got, np.array(rows, dtype=np.float64).reshape(len(raw), -1), "one-hot", f"{part} kinds={kinds}")
        c.check(got.dtype == np.float32, "one-hot", f"dtype {got.dtype}")
    c.nontrivial(("onehot", kinds, len(fit)))


@M.scenario(quick=280, thorough=1500)
def text(c):
    n, m = c.py.randint(4, 16), c.py.randint(1, 8)
    shape = {"form": c.pick(["list", "obj", "U"])}
    X, T = ppgen.make_X(c.rng, "text", n, shape), ppgen.make_X(c.rng, "text", m, shape)
    fit = fits(c, n)
    which = c.pick(["vocab", "hash", "tfidf", "strings"])
    if which == "vocab":
        V, L, mf = c.pick([4, 7, 50]), c.py.randint(1, 7), c.py.randint(1, 3)
        r = run(c, "text", X, T, [S("text.vocab_tokenizer", vocab_size=V, max_length=L, min_freq=mf)], fit)
        cnt = Counter(w for i in fit for w in str(X[i]).lower().split())
        ids = {}
        for art, raw, part in ((r.train_artifacts, X, "train"), (r.test_artifacts, T, "test")):
            I, A = art["tokens.input_ids"], art["tokens.attention_mask"]
            c.check(I.shape == A.shape == (len(raw), L) and np.array_equal(art["features.X"], I), "vocab-shape", f"{part} {I.shape}")
            for i in range(len(raw)):
                toks = str(raw[i]).lower().split()[:L]
                c.check(A[i].tolist() == [1] * len(toks) + [0] * (L - len(toks)) and not I[i, len(toks):].any(), "vocab-mask", f"{part} row {i}")
                for w, v in zip(toks, I[i].tolist()):
                    if v == 1:
                        continue
                    c.check(v >= 2 and ids.setdefault(w, v) == v, "vocab-ids", f"word {w!r} got {v} and {ids.get(w)}")
                    c.check(cnt[w] >= mf, "vocab-fit", f"word {w!r} seen {cnt[w]} times in the fit rows, min_freq {mf}")
            all_words = {w for i in range(len(raw)) for w in str(raw[i]).lower().split()[:L]}
            room = max(0, V - 2)
            by = [w for w, k in cnt.most_common() if k >= mf]
            if len(by) <= room:  # every frequent word has its own id
                for w in all_words & set(by):
                    c.check(w in ids, "vocab-missing-word", f"{w!r} ({cnt[w]} times, min_freq {mf}, room {room}) is unknown in {part}")
            elif room:
                cut = sorted((cnt[w] for w in by), reverse=True)[room - 1]
                for w in all_words & set(ids):
                    c.check(cnt[w] >= cut, "vocab-not-most-frequent", f"{w!r} seen {cnt[w]} < {cut}")
        c.check(len(set(ids.values())) == len(ids) and all(v < V for v in ids.values()), "vocab-ids", f"ids {ids} vocab {V}")
    elif which == "hash":
        V, L, low = c.pick([3, 20, 20000]), c.py.randint(1, 7), c.chance(0.6)
        r = run(c, "text", X, T, [S("text.hash_tokenizer", vocab_size=V, max_length=L, lowercase=low)])
        ids = {}
        for art, raw in ((r.train_artifacts, X), (r.test_artifacts, T)):
            I, A = art["tokens.input_ids"], art["tokens.attention_mask"]
            for i in range(len(raw)):
                t = str(raw[i]).lower() if low else str(raw[i])
                toks = t.split()[:L]
                c.check(A[i].tolist() == [1] * len(toks) + [0] * (L - len(toks)) and not I[i, len(toks):].any(), "hash-mask", f"row {i}")
                for w, v in zip(toks, I[i].tolist()):
                    c.check(2 <= v < max(3, V) and ids.setdefault(w, v) == v, "hash-ids", f"word {w!r} got {v}, {ids.get(w)}, vocab {V}")
        if V == 20000 and len(ids) > 4:
            c.check(len(set(ids.values())) > 1, "hash-ids", "all words share one id")
    elif which == "tfidf":
        import re

        lo, hi = c.pick([(1, 1), (1, 1), (1, 2), (2, 2)])
        mind, maxd, mf = c.pick([1, 1, 2, 0.3]), c.pick([1.0, 1.0, 0.7, 3]), c.pick([None, None, 3, 6])

        def tok(s):
            w = re.findall(r"(?u)\b\w\w+\b", s.lower())
            return [" ".join(w[i : i + k]) for k in range(lo, hi + 1) for i in range(len(w) - k + 1)]

        docs = [tok(str(X[i])) for i in fit]
        df = {w: sum(w in d for d in docs) for d in docs for w in d}
        low = mind if isinstance(mind, int) else mind * len(docs)
        top = maxd if isinstance(maxd, int) else maxd * len(docs)
        vocab = sorted(w for w in df if low <= df[w] <= top)
        if mf is not None and len(vocab) > mf:
            tot = Counter(w for d in docs for w in d)
            order = sorted(vocab, key=lambda w: -tot[w])
            if tot[order[mf - 1]] == tot[order[mf]]:
                c.count("tfidf_ties_not_judged")
                return
            vocab = sorted(order[:mf])
        if not vocab or top < low:
            c.count("tfidf_empty_vocabulary_not_judged")
            return
        r = run(c, "text", X, T, [S("text.tfidf", ngram_range=[lo, hi], max_features=mf, min_df=mind, max_df=maxd)], fit)
        for got, raw, part in ((r.dataset.train.X, X, "train"), (r.dataset.test.X, T, "test")):
            want = np.zeros((len(raw), len(vocab)))
            for i in range(len(raw)):
                k = Counter(tok(str(raw[i])))
                for j, w in enumerate(vocab):
                    want[i, j] = k[w] * (math.log((1 + len(docs)) / (1 + df[w])) + 1)
                nrm = np.linalg.norm(want[i])
                if nrm:
                    want[i] /= nrm
            near(c, got.toarray(), want, "tfidf", f"{part} fit={len(fit)}/{n}")
    else:
        r = run(c, "text", X, T, [S("text.ensure_strings")], out="raw.X")
        c.check(list(r.dataset.train.X) == [str(x) for x in X] and list(r.dataset.test.X) == [str(x) for x in T], "ensure-strings", "texts changed")
    c.nontrivial((which, shape["form"], n, len(fit)))


@M.scenario(quick=360, thorough=2500)
def vision(c):
    n, m = c.py.randint(6, 12), c.pick([2, 5, 7])
    h, w = c.py.randint(5, 9), c.py.randint(5, 9)
    ch = c.py.randint(1, 4)
    lay = c.pick(["NHWC", "NCHW"])
    shp = (h, w, ch) if lay == "NHWC" else (ch, h, w)
    u8 = c.chance(0.5)
    mk = (lambda k: c.rng.integers(0, 256, (k, *shp)).astype(np.uint8)) if u8 else (lambda k: (c.rng.random((k, *shp)) * 255).astype(np.float32))
    X, T = mk(n), mk(m)

    def nhwc(a, layout=lay):
        return a if layout == "NHWC" else a.transpose(0, 2, 3, 1)

    which = c.pick(["order", "channels", "resize", "normalize", "zca", "squeeze"])
    msg = f"{which} {lay} {shp} u8={u8}"
    if which == "order":
        to = c.pick(["NHWC", "NCHW"])
        r = run(c, "vision", X, T, [S("vision.channels_order", order=to)], out="raw.X")
        for got, raw in ((r.dataset.train.X, X), (r.dataset.test.X, T)):
            want = nhwc(raw) if to == "NHWC" else nhwc(raw).transpose(0, 3, 1, 2)
            c.check(np.shape(got) == want.shape and np.array_equal(got, want), "channels-order", f"{msg} -> {to}: {np.shape(got)}")
    elif which == "channels":
        k = c.py.randint(1, 4)
        r = run(c, "vision", X, T, [S("vision.ensure_num_channels", num_channels=k)], out="raw.X")
        for got, raw in ((r.dataset.train.X, X), (r.dataset.test.X, T)):
            a, g = nhwc(raw), nhwc(np.asarray(got))
            c.check(g.shape == (len(raw), h, w, k), "num-channels", f"{msg} -> {k}: {g.shape}")
            if k <= ch:
                want = a[..., :k]
            elif ch == 1:
                want = np.repeat(a, k, axis=-1)
            else:
                want = np.concatenate([a, np.zeros((*a.shape[:-1], k - ch), a.dtype)], axis=-1)
            c.check(np.array_equal(g, want), "num-channels", f"{msg} -> {k}")
    elif which == "resize":
        H, W = c.py.randint(4, 12), c.py.randint(4, 12)
        if c.chance(0.2):
            H, W = h, w
        r = run(c, "vision", X, T, [S("vision.resize", height=H, width=W)], out="raw.X")
        ri = [min(h - 1, int(np.linspace(0, h - 1, H)[i])) for i in range(H)]
        ci = [min(w - 1, int(np.linspace(0, w - 1, W)[i])) for i in range(W)]
        for got, raw in ((r.dataset.train.X, X), (r.dataset.test.X, T)):
            a, g = nhwc(raw), nhwc(np.asarray(got))
            c.check(g.shape == (len(raw), H, W, ch), "resize", f"{msg} -> {H}x{W}: {g.shape}")
            for _ in range(12):
                i, y, x, k = (c.py.randrange(s) for s in g.shape)
                src = a[i, :, :, k].astype(g.dtype)
                # nearest neighbour: the pixel at the proportional position (or one beside it)
                near_px = src[max(0, ri[y] - 1): ri[y] + 2, max(0, ci[x] - 1): ci[x] + 2]
                c.check(g[i, y, x, k] in near_px, "resize", f"{msg} -> {H}x{W}: pixel {(y, x)} is not near its source")
            if (H, W) == (h, w):
                c.check(np.array_equal(g, a.astype(g.dtype)), "resize", f"{msg}: same size is not the identity")
    elif which == "normalize":
        mean, std = [float(v) for v in c.rng.random(ch)], [float(v) + 0.1 for v in c.rng.random(ch)]
        r = run(c, "vision", X, T, [S("vision.normalize", mean=mean, std=std)], out="raw.X")
        for got, raw in ((r.dataset.train.X, X), (r.dataset.test.X, T)):
            near(c, nhwc(np.asarray(got)), (nhwc(raw).astype(np.float64) - np.array(mean)) / np.array(std), "normalize", msg)
    elif which == "squeeze":
        X1, T1 = X[..., :1] if lay == "NHWC" else X[:, :1], T[..., :1] if lay == "NHWC" else T[:, :1]
        r = run(c, "vision", X1, T1, [S("vision.squeeze", dim=-1 if lay == "NHWC" else 1, as_list=c.chance(0.5))], out="raw.X")
        want = X1[..., 0] if lay == "NHWC" else X1[:, 0]
        c.check(len(r.dataset.train.X) == n and np.array_equal(np.asarray(r.dataset.train.X), want), "squeeze", msg)
    else:
        n = c.py.randint(30, 60)
        shp2 = (3, 2, 1)
        mix = c.rng.normal(size=(6, 6))
        X = (c.rng.normal(size=(n, 6)) @ mix + 3).reshape(n, *shp2)
        T = (c.rng.normal(size=(m, 6)) @ mix).reshape(m, *shp2)
        fit = fits(c, n, lo=25)
        eps = c.pick([1e-5, 1e-3])
        r = run(c, "vision", X, T, [S("vision.zca_whitening", eps=eps)], fit, out="raw.X")
        F = X[fit].reshape(len(fit), -1)
        mu = F.mean(axis=0)
        cov = (F - mu).T @ (F - mu) / len(fit)
        lam, U = np.linalg.eigh(cov)
        Wz = U @ np.diag(1 / np.sqrt(np.maximum(lam, 0) + eps)) @ U.T
        for got, raw in ((r.dataset.train.X, X), (r.dataset.test.X, T)):
            near(c, got.reshape(len(raw), -1), (raw.reshape(len(raw), -1) - mu) @ Wz, "zca", msg, rtol=1e-3)
            c.check(got.shape == raw.shape, "zca", f"{got.shape}")
    c.nontrivial((which, lay, shp, u8))


@M.scenario(quick=160, thorough=800)
def audio(c):
    n, m = c.py.randint(3, 8), c.pick([1, 2, 3])
    form = c.pick(["2d", "list", "obj", "stereo"])
    if form == "stereo":
        X = [c.rng.normal(size=(2, c.py.randint(3, 30))).astype(np.float32) for _ in range(n)]
        T = [c.rng.normal(size=(c.pick([1, 2]), c.py.randint(3, 30))).astype(np.float32) for _ in range(m)]
    else:
        shape = {"form": form, "T": 20}
        X, T = ppgen.make_X(c.rng, "audio", n, shape), ppgen.make_X(c.rng, "audio", m, shape)
    L, trim, pad = c.pick([5, 12, 40]), c.pick(["start", "center", "end"]), c.pick([0.0, -2.0])
    r = run(c, "audio", X, T, [S("audio.load_waveform", max_length=L, trim=trim, pad_value=pad)])
    for got, raw, part in ((r.dataset.train.X, X, "train"), (r.dataset.test.X, T, "test")):
        want = []
        for wv in raw:
            wv = np.asarray(wv, dtype=np.float64)
            wv = wv.mean(axis=0) if wv.ndim == 2 else wv
            k = len(wv)
            if k > L:
                s = {"start": 0, "center": (k - L) // 2, "end": k - L}[trim]
                wv = wv[s: s + L]
            want.append(np.r_[wv, np.full(L - len(wv), pad)])
        near(c, got, np.array(want), "waveform", f"{part} {form} L={L} {trim}")
    st = [S("audio.load_waveform", max_length=64), S("audio.log_mel_spectrogram", sample_rate=800, n_fft=16, n_mels=4)]
    r = run(c, "audio", X, T, st)
    k = c.py.randrange(n)
    one = run(c, "audio", X, [X[k]] if form != "2d" else X[k:k + 1], st)
    c.check(np.asarray(one.dataset.test.X).shape[0] == 1 and np.array_equal(np.asarray(one.dataset.test.X)[0], np.asarray(r.dataset.train.X)[k]),
            "spectrogram-depends-on-batch", f"{form} sample {k}")
    c.nontrivial((form, L, trim, pad, n))


@M.scenario(quick=200, thorough=1200)
def graph(c):
    n, e = c.py.randint(5, 15), c.py.randint(4, 60)
    X = c.rng.normal(size=(n, 3)).astype(np.float32)
    E, Et = ppgen.make_edges(c.rng, n, e), ppgen.make_edges(c.rng, n, max(4, e - 2))
    w = c.pick([1.0, 2.5])
    frac = c.pick([0.05, 0.3, 0.7, 1.0])
    seed = c.py.randrange(100)
    r = run(c, "graph", X, X, [S("graph.attach_edge_weight", weight=w)], seed=seed, edges=E, edges_te=Et)
    c.check(np.array_equal(r.dataset.train.edges["edge_index"], E) and r.dataset.train.edges["edge_weight"].tolist() == [w] * e, "attach-edge-weight", f"E={e}")
    c.check(np.array_equal(r.dataset.test.edges["edge_index"], Et), "attach-edge-weight", "test edges")
    r = run(c, "graph", X, X, [S("graph.attach_edge_weight", weight=w), S("graph.edge_sparsify", keep_fraction=frac)], seed=seed, edges=E, edges_te=Et)
    for out, src in ((r.dataset.train.edges, E), (r.dataset.test.edges, Et)):
        ei, ew = out["edge_index"], out["edge_weight"]
        c.check(ei.shape[0] == 2 and ei.shape[1] == ew.shape[0] and 1 <= ei.shape[1] <= src.shape[1], "sparsify-shape", f"{ei.shape} {ew.shape}")
        it = iter(zip(*src.tolist()))
        c.check(all(any(x == y for y in it) for x in zip(*ei.tolist())), "sparsify-not-a-subsequence", f"frac={frac}")
        if frac == 1.0:
            c.check(np.array_equal(ei, src), "sparsify-identity", "keep_fraction=1 dropped edges")
        if src.shape[1] >= 40 and frac <= 0.7:
            k = ei.shape[1] / src.shape[1]
            c.check(abs(k - frac) < 0.42, "sparsify-fraction", f"kept {k:.2f} for {frac}")
    # weights follow their edges: every edge carries its own index as weight, in both edge layouts
    for src in (E, E.T.copy()):
        tag = np.arange(e, dtype=np.float64)
        if src.shape == (2, 2):
            continue
        import torch

        as_t = c.chance(0.3)
        st = ArtifactStore()
        st.set("graph.edge_index", torch.as_tensor(src) if as_t else src)
        st.set("graph.edge_weight", torch.as_tensor(tag) if as_t else tag)
        out = default_step_registry().instantiate("graph.edge_sparsify", params={"keep_fraction": frac}).transform(st, rng=np.random.default_rng(seed))
        ei, ew = np.asarray(out["graph.edge_index"]), np.asarray(out["graph.edge_weight"])
        if src.shape[0] != 2:
            c.check(ei.ndim == 2 and ei.shape[1] == 2, "sparsify-shape", f"(E, 2) edges gave {ei.shape}")
            ei, ref = ei.T, src.T
        else:
            ref = src
        c.check(ei.shape[1] == ew.shape[0] >= 1 and all((ref[:, int(t)] == p).all() for t, p in zip(ew, ei.T)), "sparsify-weights-misaligned",
                lambda: f"layout {src.shape} frac={frac}: kept {ei.tolist()} with tags {ew.tolist()}")
        c.check(len(set(ew.tolist())) == len(ew), "sparsify-duplicates", f"{ew.tolist()}")
    r = run(c, "graph", X, X, [S("graph.sparse_adjacency")], seed=seed, edges=E, edges_te=Et)
    fx = r.dataset.train.X
    c.check(np.array_equal(fx["x"], X) and np.array_equal(fx["edge_index"], E), "sparse-adjacency", "content")
    for sid, kw in (("graph.node2vec", {"embedding_dim": 3}), ("graph.dgi", {"embedding_dim": 3, "hidden_dim": 4, "unsup_epochs": 1})):
        r = run(c, "graph", X, X, [S(sid, **kw)], seed=seed, edges=E, edges_te=Et)
        c.check(r.dataset.train.X.shape == (n, 3) and np.isfinite(r.dataset.train.X).all(), "graph-embedding", f"{sid} {r.dataset.train.X.shape}")
    c.nontrivial((n, e, w, frac))
