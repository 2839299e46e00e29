"""I04: the model bundle built for a deep method is the network, optimiser and average its configuration names."""
import copy
import math
from dataclasses import replace

import numpy as np
from scipy.stats import binom

from modssc.inductive.deep import TorchModelBundle, validate_torch_model_bundle
from modssc.inductive.deep.bundle_factories.factory import build_torch_bundle_from_classifier
from modssc.inductive.errors import InductiveValidationError
from vf import supref
from vf.core import Module, short

M = Module(
    "I04",
    rule="Bundles are built for every classifier id, layout and option, and then used: their outputs are compared with own forward passes over the bundle's weights, "
    "their optimiser is stepped, their average and meta functions are called after the network moved on, and their builder is called again under other process states. "
    "Non-trivial: distinct (classifier, input layout, options) whose outputs, step or refusal were judged.",
    preload=["torch", "modssc.inductive.deep", "torch_geometric"],
)


def T():
    import torch

    return torch


def ints(c, lo, hi, k):
    return [c.py.randint(lo, hi) for _ in range(k)]


def common(c):
    return {"lr": c.pick([0.1, 0.01, 0.003]), "weight_decay": c.pick([0.0, 0.1, 0.5]), "dropout": c.pick([0.0, 0.3, 0.6]), "activation": c.pick(["relu", "tanh", "gelu"])}


def case(c, cid=None, n=None):
    """(classifier id, params, input, description of what the input is, own parameters)"""
    t = T()
    cid = cid or c.pick(["mlp", "mlp", "logreg", "image_cnn", "audio_cnn", "text_cnn", "lstm_scratch", "graphsage_inductive"])
    n = n or c.py.randint(2, 7)
    p = common(c)
    ref = dict(p)
    f = lambda *s: t.as_tensor(c.rng.normal(size=s).astype(np.float32))
    kind = None
    if cid in ("mlp", "logreg"):
        d = c.py.randint(1, 6)
        x, shape = f(n, d), (d,)
        if cid == "mlp":
            kind = c.pick(["list", "int", "dim", "empty"])
            h = ints(c, 1, 6, c.py.randint(1, 3))
            if kind == "list":
                p["hidden_sizes"] = ref["hidden_sizes"] = c.pick([list, tuple])(h)
            elif kind == "int":
                p["hidden_sizes"], ref["hidden_sizes"] = h[0], [h[0]]
            elif kind == "dim":
                p["hidden_dim"], ref["hidden_sizes"] = h[0], [h[0]]
            else:
                p["hidden_sizes"] = ref["hidden_sizes"] = []
        p["return_features"] = c.chance(0.5)
    elif cid == "image_cnn":
        ch, h, w = c.py.randint(1, 3), c.py.randint(3, 6), c.py.randint(3, 6)
        kind = c.pick(["4d", "3d", "flat3", "flat2"])
        ch = 1 if kind in ("3d", "flat2") else ch
        img = f(n, ch, h, w)
        x = {"4d": img, "3d": img[:, 0], "flat3": img.reshape(n, -1), "flat2": img.reshape(n, -1)}[kind]
        if kind.startswith("flat"):
            p["input_shape"] = c.pick([list, tuple])([ch, h, w] if kind == "flat3" else [h, w])
        p.update(conv_channels=ints(c, 1, 4, c.py.randint(1, 2)), kernel_size=c.pick([1, 3]), fc_dim=c.pick([0, 4, 5]))
        ref.update(p)
        shape, ref["_x"] = (ch, h, w), img
    elif cid == "audio_cnn":
        ch, L = c.py.randint(1, 3), c.py.randint(6, 12)
        kind = c.pick(["3d", "flat", "mono"])
        ch = 1 if kind == "mono" else ch
        wav = f(n, ch, L)
        x = wav if kind == "3d" else wav.reshape(n, -1)
        if kind == "flat":
            p["input_shape"] = c.pick([list, tuple])([ch, L])
        p.update(conv_channels=ints(c, 1, 4, c.py.randint(1, 2)), kernel_size=c.pick([1, 3, 5]), fc_dim=c.pick([0, 4, 5]))
        ref.update(p)
        shape, ref["_x"] = (ch, L), wav
    elif cid == "text_cnn":
        kind = c.pick(["last", "last", "first", "flat", "default"])
        L, D = c.py.randint(3, 7), c.py.randint(2, 7)
        if c.chance(0.2):
            D = L
        D = 1 if kind == "flat" else D
        seq = f(n, L, D)
        x = seq[:, :, 0] if kind == "flat" else seq.transpose(1, 2).contiguous() if kind == "first" else seq
        if kind in ("last", "first"):
            p["input_layout"] = "channels_" + kind
        p.update(kernel_sizes=c.pick([(2, 3), (3,), (2, 3, 9), [1, 3]]), num_filters=c.py.randint(1, 5))
        ref.update(p)
        shape, ref["_x"] = (L, D), seq
    elif cid == "lstm_scratch":
        V, L = c.py.randint(4, 30), c.py.randint(2, 6)
        kind = c.pick(["given", "inferred", "float"])
        ids = c.rng.integers(0, V, size=(n, L))
        ids[0] = np.minimum(ids[0], V // 2)
        ids[-1, -1] = V - 1
        x = t.as_tensor(ids if kind != "float" else ids.astype(np.float32))
        if kind != "inferred" or n == 0:
            p["vocab_size"] = V + c.py.randint(0, 3)
        H = c.py.randint(1, 5)
        p["embed_dim"] = c.py.randint(L + 1, L + 4)
        p[c.pick(["hidden_dim", "hidden_size", "hidden_sizes"])] = H
        if "hidden_sizes" in p and c.chance(0.5):
            p["hidden_sizes"] = [H]
        p.update(num_layers=c.py.randint(1, 2), bidirectional=c.chance(0.6), return_features=c.chance(0.5))
        ref.update(p, _H=H)
        shape = None
    else:
        d = c.py.randint(1, 5)
        e = c.py.randint(0, 3 * n)
        x = {"x": f(n, d), "edge_index": t.as_tensor(np.stack([c.rng.integers(0, n, size=e), c.rng.integers(0, n, size=e)]).astype(np.int64))}
        kind = c.pick(["sizes", "int", "layers", "both"])
        h = ints(c, 1, 5, c.py.randint(1, 2))
        if kind in ("sizes", "both", "layers") and c.chance(0.2):
            h = []
        if kind == "sizes":
            p["hidden_sizes"] = h
        elif kind == "int":
            p["hidden_sizes"], h = h[0], h[:1]
        elif kind == "both":
            p.update(hidden_sizes=h, num_layers=len(h) + 1)
        else:
            p.update(hidden_channels=h[0] if h else 3, num_layers=len(h) + 1)
            h = [p["hidden_channels"]] * len(h)
        ref["_h"] = h
        shape = None
    ref["_shape"] = shape
    return cid, p, x, kind, ref


def build(cid, p, x, k, seed=0, ema=False, backend="torch"):
    return build_torch_bundle_from_classifier(classifier_id=cid, classifier_backend=backend, classifier_params=p, sample=x, num_classes=k, seed=seed, ema=ema)


def logits(out):
    return out["logits"] if isinstance(out, dict) else out[0] if isinstance(out, tuple) else out


def feats(out):
    return out["feat"] if isinstance(out, dict) else out[1] if isinstance(out, tuple) else None


def values(m):
    return [q.detach().cpu().numpy().astype(np.float64) for q in m.parameters()]


def sig(z):
    return 1 / (1 + np.exp(-z))


def lstm_np(emb, ws, H, layers, dirs):
    """Last hidden states (forward, backward) of the top layer."""
    seq, it = emb, iter(ws)
    for _ in range(layers):
        outs, last = [], []
        for d in range(dirs):
            wi, wh, bi, bh = (next(it) for _ in range(4))
            h = cc = np.zeros((len(seq), H))
            hs = []
            for s in range(seq.shape[1]) if d == 0 else reversed(range(seq.shape[1])):
                g = seq[:, s] @ wi.T + bi + h @ wh.T + bh
                i, f, u, o = (g[:, j * H : (j + 1) * H] for j in range(4))
                cc = sig(f) * cc + sig(i) * np.tanh(u)
                h = sig(o) * np.tanh(cc)
                hs.append(h)
            last.append(h)
            outs.append(np.stack(hs if d == 0 else hs[::-1], axis=1))
        seq = np.concatenate(outs, axis=2)
    return np.concatenate(last, axis=1)


def own(cid, ref, x, model, k):
    """Own scores (evaluation mode) from the model's weights in layer order."""
    t = T()
    ws = values(model)
    if cid == "lstm_scratch":
        emb = ws[0][np.asarray(x).astype(int)] if x.ndim == 2 else np.asarray(x, np.float64)
        h = lstm_np(emb, ws[1:-2], ref["_H"], ref["num_layers"], 2 if ref["bidirectional"] else 1)
        return h @ ws[-2].T + ws[-1], h
    if cid == "graphsage_inductive":
        n = len(x["x"])
        A = np.zeros((n, n))
        for a, b in np.asarray(x["edge_index"]).T:
            A[b, a] += 1
        A /= np.maximum(A.sum(1, keepdims=True), 1)
        h = np.asarray(x["x"], np.float64)
        sizes = [h.shape[1], *ref["_h"], k]
        ls = len(sizes) - 1
        assert len(ws) == 3 * ls, [w.shape for w in ws]
        for i in range(ls):
            w = ws[3 * i : 3 * i + 3]
            b = [v for v in w if v.ndim == 1][0]
            nb, rt = [v for v in w if v.ndim == 2]
            feat = h
            h = (A @ h) @ nb.T + b + h @ rt.T
            if i < ls - 1:
                h = np.maximum(h, 0)
        return h, feat
    ps, fwd = supref.build("mlp" if cid == "logreg" else cid, {**ref, "hidden_sizes": ref.get("hidden_sizes", [])}, ref["_shape"], k)
    with t.no_grad():
        mine = [tuple(q.shape) for q in ps]
        assert mine == [w.shape for w in ws], (mine, [w.shape for w in ws])
        for q, w in zip(ps, ws):
            q.data = t.as_tensor(w)
        x = ref.get("_x", x)
        return fwd(x.double(), False).numpy(), None


def near(a, b, tol=1e-4):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


def ev(model, x):
    model.eval()
    with T().no_grad():
        return model(x)


@M.scenario(quick=400, thorough=20000)
def forward(c):
    """The network computes the named architecture, in every input layout the builder accepts."""
    cid, p, x, kind, ref = case(c)
    k = c.py.randint(2, 5)
    desc = f"{cid} {kind} {short(p)}"
    keep = copy.deepcopy(x)
    pk = copy.deepcopy(p)
    b = build(cid, p, x, k, seed=c.py.randrange(1000))
    c.check(p == pk, "params changed", desc)
    c.check(same(keep, x), "sample changed", desc)
    try:
        want, h = own(cid, ref, x, b.model, k)
    except (AssertionError, ValueError, IndexError, StopIteration) as e:
        c.fail("architecture", f"{desc}: layer shapes {[w.shape for w in values(b.model)]} {e}")
    out = ev(b.model, x)
    c.check(near(logits(out), want), "scores " + cid, lambda: f"{desc}: {short(np.asarray(logits(out)))} expected {short(want)}")
    if feats(out) is not None:
        f = np.asarray(feats(out), np.float64)
        c.check(len(f) == len(want), "features", desc)
        if h is not None:
            c.check(near(f, h), "features " + cid, desc)
        elif cid in ("mlp", "logreg"):
            w = values(b.model)
            c.check(near(f @ w[-2].T + w[-1], want), "features " + cid, f"{desc}: the reported features are not what the last layer reads")
    wants = {"mlp", "logreg", "lstm_scratch"}
    if cid in wants:
        c.check((feats(out) is not None) == bool(p.get("return_features")), "features asked for", desc)
    if cid == "lstm_scratch":
        ff, fh = b.meta["forward_features"], b.meta["forward_head"]
        with T().no_grad():
            c.check(near(ff(x), h), "forward_features", desc)
            c.check(near(fh(ff(x)), want), "forward_head", desc)
            emb = b.model.get_input_embeddings(x)
            c.check(near(emb, values(b.model)[0][np.asarray(x).astype(int)]), "input embeddings", desc)
            c.check(near(logits(b.model(emb)), want) and near(ff(emb), h), "embedded input", desc)
            i = c.rng.permutation(len(x))
            c.check(near(logits(b.model(x[i.tolist()])), want[i]), "rows independent", desc)
            b.model.train()  # the two halves drop what the whole network drops
            for f in (x, emb):
                s = c.py.randrange(10**6)
                T().manual_seed(s)
                whole = logits(b.model(f))
                T().manual_seed(s)
                c.check(near(fh(ff(f)), whole, 1e-5), "forward_head in training", desc)
            if p["num_layers"] > 1:
                hs = [np.asarray(ff(x)) for _ in range(40)]
                c.check(any(not near(hs[0], z, 1e-7) for z in hs) == (p["dropout"] > 0 and len(x) * ref["_H"] * x.shape[1] > 0), "dropout between layers", lambda: f"{desc}: dropout {p['dropout']}")
            b.model.eval()
    elif cid != "graphsage_inductive":
        i = c.rng.permutation(len(x))[: c.py.randint(1, len(x))]
        c.check(near(logits(ev(b.model, x[i.tolist()])), want[i]), "rows independent", desc)
    validate_torch_model_bundle(b)
    c.nontrivial((cid, kind, p["activation"], p.get("return_features"), len(p.get("hidden_sizes") or ()) if isinstance(p.get("hidden_sizes"), (list, tuple)) else None,
                  p.get("num_layers"), p.get("bidirectional"), str(p.get("kernel_sizes")), p.get("fc_dim")))


def same(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return T().equal(a, b)


@M.scenario(quick=150, thorough=6000)
def seeded(c):
    """Weights are settled by the seed and the configuration; two bundles share nothing."""
    t = T()
    cid, p, x, kind, ref = case(c)
    k, s = c.py.randint(2, 4), c.py.randrange(10**6)
    desc = f"{cid} {kind} seed={s}"
    t.manual_seed(c.py.randrange(1000))
    a = build(cid, p, x, k, seed=s, ema=c.chance(0.5))
    t.manual_seed(c.py.randrange(1000))
    t.rand(c.py.randint(1, 9))
    other = copy.deepcopy(x)
    if not isinstance(other, dict) and cid != "lstm_scratch":
        other = other * 2 + 1
    b = build(cid, p, other, k, seed=s, ema=c.chance(0.5), backend=c.pick(["torch", "auto", None]))
    va, vb = values(a.model), values(b.model)
    c.check(len(va) == len(vb) and all(np.array_equal(p1, p2) for p1, p2 in zip(va, vb)), "seed settles the weights", desc)
    d = build(cid, p, x, k, seed=s + c.py.randint(1, 9))
    vd = values(d.model)
    c.check(any(not np.array_equal(p1, p2) for p1, p2 in zip(va, vd)), "seed is used", desc)
    ptr = [{q.data_ptr() for q in m.parameters()} for m in (a.model, b.model, d.model)] + [{q.data_ptr() for q in m.parameters()} for m in (a.ema_model, b.ema_model) if m is not None]
    for i in range(len(ptr)):
        for j in range(i):
            c.check(not ptr[i] & ptr[j], "bundles share weights", desc)
    with t.no_grad():
        for q in a.model.parameters():
            q.add_(1)
    c.check(all(np.array_equal(p1, p2) for p1, p2 in zip(vb, values(b.model))), "bundles share weights", desc)
    c.check(a.optimizer is not b.optimizer, "bundles share an optimiser", desc)
    c.nontrivial((cid, kind, k))


@M.scenario(quick=200, thorough=8000)
def optimiser(c):
    """One step from fresh state: decoupled decay and the normalised gradient at the configured rate, for exactly the network's weights; the average stays put."""
    t = T()
    cid, p, x, kind, ref = case(c)
    k = c.py.randint(2, 4)
    ema = c.chance(0.6)
    desc = f"{cid} {kind} lr={p['lr']} wd={p['weight_decay']} ema={ema}"
    b = build(cid, p, x, k, seed=c.py.randrange(1000), ema=ema)
    c.check((b.ema_model is not None) == ema, "average on request", desc)
    opt = [q for g in b.optimizer.param_groups for q in g["params"]]
    c.check(len({id(q) for q in opt}) == len(opt) and {id(q) for q in opt} == {id(q) for q in b.model.parameters()}, "optimised weights", desc)
    c.check(all(q.requires_grad for q in b.model.parameters()), "trainable", desc)
    c.check(all(g["lr"] == p["lr"] and g["weight_decay"] == p["weight_decay"] for g in b.optimizer.param_groups), "rate and decay", lambda: f"{desc}: {[(g['lr'], g['weight_decay']) for g in b.optimizer.param_groups]}")
    before = values(b.model)
    if ema:
        c.check(b.ema_model is not b.model and all(np.array_equal(u, v) for u, v in zip(before, values(b.ema_model))), "average starts equal", desc)
        c.check(not any(q.requires_grad for q in b.ema_model.parameters()), "average needs no gradient", desc)
        c.check(near(logits(ev(b.ema_model, x)), logits(ev(b.model, x)), 1e-6), "average computes the same", desc)
        e0 = np.asarray(logits(ev(b.ema_model, x)))
    b.model.train()
    y = t.as_tensor(c.rng.integers(0, k, size=len(x["x"] if isinstance(x, dict) else x)))
    for q, (u, v) in zip(b.model.parameters(), zip(before, values(b.model))):
        c.check(np.array_equal(u, v), "train mode changes weights", desc)
    b.optimizer.zero_grad()
    t.nn.functional.cross_entropy(logits(b.model(x)), y).backward()
    gs = [None if q.grad is None else q.grad.detach().numpy().astype(np.float64).copy() for q in b.model.parameters()]
    c.check(all(g is not None for g in gs), "a weight is not used", lambda: f"{desc}: {[i for i, g in enumerate(gs) if g is None]}")
    b.optimizer.step()
    for u, g, v in zip(before, gs, values(b.model)):
        want = u * (1 - p["lr"] * p["weight_decay"]) - p["lr"] * g / (np.abs(g) + 1e-8)
        big = (np.abs(g) > 1e-5) | (g == 0)
        c.check(np.allclose(v[big], want[big], rtol=1e-4, atol=1e-5), "one step", lambda u=u, v=v, want=want: f"{desc}: {short(u.ravel()[:4])} became {short(v.ravel()[:4])}, expected {short(want.ravel()[:4])}")
    if ema:
        c.check(all(np.array_equal(u, v) for u, v in zip(before, values(b.ema_model))), "average moved with the step", desc)
        c.check(near(logits(ev(b.ema_model, x)), e0, 1e-6), "average moved with the step", desc)
        if cid == "lstm_scratch":
            b.model.eval()
            with t.no_grad():
                m = b.meta
                c.check(near(m["forward_head_ema"](m["forward_features_ema"](x)), e0), "average features", desc)
                c.check(near(m["forward_head"](m["forward_features"](x)), logits(b.model(x))), "network features", desc)
                w = values(b.ema_model)
                c.check(near(m["forward_head_ema"](m["forward_features"](x)), np.asarray(m["forward_features"](x), np.float64) @ w[-2].T + w[-1]), "average features", desc)
    elif b.meta:
        c.check(not any("ema" in key for key in b.meta), "average functions without an average", str(sorted(b.meta)))
    validate_torch_model_bundle(b)
    c.nontrivial((cid, kind, p["lr"], p["weight_decay"], ema))


@M.scenario(quick=120, thorough=5000)
def dropout(c):
    """In training each value read by the last layer is dropped at the configured rate and rescaled; never in evaluation."""
    t = T()
    cid = c.pick(["mlp", "image_cnn", "audio_cnn", "text_cnn", "lstm_scratch", "graphsage_inductive"])
    cid, p, x, kind, ref = case(c, cid=cid, n=40)
    q = p["dropout"] = c.pick([0.0, 0.2, 0.5, 0.9])
    p["activation"] = "tanh" if cid != "graphsage_inductive" else "relu"
    if cid == "mlp":
        p.pop("hidden_dim", None)
        p["hidden_sizes"] = [12]
    if cid in ("image_cnn", "audio_cnn"):
        p["fc_dim"] = 12
    if cid == "text_cnn":
        p["num_filters"] = 8
    if cid == "lstm_scratch":
        p["num_layers"] = 1
    if cid == "graphsage_inductive":
        p.pop("hidden_sizes", None)
        p.update(hidden_channels=20, num_layers=2)
    k = 3
    desc = f"{cid} {kind} dropout={q}"
    b = build(cid, p, x, k, seed=c.py.randrange(1000))
    got = []
    last = [m for m in b.model.modules() if isinstance(m, t.nn.Linear)][-1] if cid != "graphsage_inductive" else b.model.convs[-1]
    hook = last.register_forward_pre_hook(lambda m, a: got.append(a[0].detach().numpy().astype(np.float64).copy()))
    ev(b.model, x), ev(b.model, x)
    c.check(np.array_equal(got[0], got[1]), "evaluation repeats", desc)
    h0 = got[0]
    live = h0 != 0
    got.clear()
    b.model.train()
    t.manual_seed(c.py.randrange(10**6))
    runs = 6
    with t.no_grad():
        for _ in range(runs):
            b.model(x)
    hook.remove()
    zeros = 0
    for h in got:
        z = live & (h == 0)
        zeros += int(z.sum())
        c.check(np.allclose(h[live & ~z], h0[live & ~z] / (1 - q), rtol=1e-3, atol=1e-5), "kept values rescaled", desc)
    n = runs * int(live.sum())
    lo, hi = binom.cdf(zeros, n, q), binom.sf(zeros - 1, n, q)
    c.check(min(lo, hi) > 1e-10, "dropout rate", f"{desc}: {zeros} of {n} dropped")
    if 0 < q:
        c.check(any(not np.array_equal(got[0], g) for g in got[1:]), "dropout drawn anew", desc)
    c.nontrivial((cid, kind, q))


class Tiny:
    """Stands in for a downloaded audio model: a deterministic waveform encoder."""

    def __init__(self, seed, stacked):
        self.seed, self.stacked = seed, stacked

    def get_model(self, **kw):
        t = T()
        outer = self

        class Enc(t.nn.Module):
            def __init__(self):
                super().__init__()
                t.manual_seed(outer.seed)
                self.conv = t.nn.Conv1d(1, 5, 3, padding=1)
                self.norm = t.nn.BatchNorm1d(5)
                self.seen = []

            def extract_features(self, w):
                self.seen.append(tuple(w.shape))
                z = self.norm(self.conv(w[:, None])).transpose(1, 2)
                return ([z * 3, z], None) if outer.stacked else (z, None)

            def forward(self, w):
                return self.extract_features(w)

        return Enc()


@M.scenario(quick=24, thorough=300)
def pretrained(c):
    """A frozen backbone is never changed, only the new head is trained; unfrozen, everything is; layouts are equivalent."""
    t = T()
    audio = c.chance(0.6)
    k = c.py.randint(2, 4)
    frozen = c.chance(0.6)
    p = {"freeze_backbone": frozen, "lr": 0.05, "weight_decay": c.pick([0.0, 0.2]), "return_features": c.chance(0.5)}
    n = 3
    if audio:
        import torchaudio

        torchaudio.pipelines.VF_TINY = Tiny(c.py.randrange(100), c.chance(0.5))
        p["bundle"] = "VF_TINY"
        kind = c.pick(["2d", "3d"])
        w = t.as_tensor(c.rng.normal(size=(n, 16)).astype(np.float32))
        x = w if kind == "2d" else w[:, None]
        cid = "audio_pretrained"
    else:
        kind = c.pick(["first", "last", "gray", "flat", "flatgray"])
        ch = 1 if "gray" in kind else 3
        img = t.as_tensor(c.rng.normal(size=(n, ch, 32, 32)).astype(np.float32))
        x = {"first": img, "last": img.permute(0, 2, 3, 1).contiguous(), "gray": img[:, 0], "flat": img.reshape(n, -1), "flatgray": img.reshape(n, -1)}[kind]
        if kind == "last":
            p["input_layout"] = "channels_last"
        if kind.startswith("flat"):
            p["input_shape"] = [3, 32, 32] if kind == "flat" else [32, 32]
        p.update(model_name=c.pick(["resnet18", "mobilenet_v3_small"]), weights=None)
        cid = "image_pretrained"
    desc = f"{cid} {kind} {p}"
    s = c.py.randrange(1000)
    try:
        b = build(cid, p, x, k, seed=s, ema=c.chance(0.5))
        b2 = build(cid, p, x, k, seed=s)
    finally:
        if audio:
            del torchaudio.pipelines.VF_TINY
    c.check(all(np.array_equal(u, v) for u, v in zip(values(b.model), values(b2.model))), "seed settles the weights", desc)
    out = ev(b.model, x)
    lo = np.asarray(logits(out))
    c.check(lo.shape == (n, k), "scores shape", f"{desc}: {lo.shape}")
    c.check((feats(out) is not None) == p["return_features"], "features asked for", desc)
    head = [m for m in b.model.modules() if isinstance(m, t.nn.Linear) and m.out_features == k][-1]
    if feats(out) is not None:
        c.check(feats(out).shape[-1] == head.in_features, "features are what the head reads", lambda: f"{desc}: {tuple(feats(out).shape)}")
        with t.no_grad():
            c.check(near(head(feats(out)), lo), "features are what the head reads", desc)
    if audio:
        enc = b.model.backbone
        with t.no_grad():
            z = enc.norm(enc.conv(w[:, None])).mean(dim=2)
        c.check(near(head(z).detach(), lo), "scores " + cid, desc)
    else:
        net = b.model.model
        with t.no_grad():
            c.check(near(net(img if ch == 3 else img.repeat(1, 3, 1, 1)), lo, 1e-3), "scores " + cid, desc)
    hid = {id(q) for q in head.parameters()}
    before = {name: v.detach().clone() for name, v in b.model.state_dict().items()}
    opt = {id(q) for g in b.optimizer.param_groups for q in g["params"]}
    c.check(opt == (hid if frozen else {id(q) for q in b.model.parameters()}), "optimised weights", desc)
    c.check(all(g["lr"] == p["lr"] and g["weight_decay"] == p["weight_decay"] for g in b.optimizer.param_groups), "rate and decay", desc)
    b.model.train()
    b.optimizer.zero_grad()
    xx = x.clone().requires_grad_(True)
    t.nn.functional.cross_entropy(logits(b.model(xx)), t.as_tensor(c.rng.integers(0, k, size=n))).backward()
    c.check(xx.grad is not None and bool((xx.grad != 0).any()), "input gradients flow", desc)
    b.optimizer.step()
    b.model.eval()
    b.model.train()
    with t.no_grad():
        b.model(x)
    after = b.model.state_dict()
    heads = [name for name, v in b.model.state_dict(keep_vars=True).items() if id(v) in hid]
    moved = {name for name in before if not t.equal(before[name], after[name])}
    if frozen:
        c.check(moved <= set(heads) and moved, "frozen backbone changed", lambda: f"{desc}: {sorted(moved)[:4]}")
    else:
        c.check(len(moved) > len(heads), "backbone not trained", lambda: f"{desc}: only {sorted(moved)}")
    if b.ema_model is not None:
        c.check(all(t.equal(before[n_], v) for n_, v in b.ema_model.state_dict().items()), "average moved with the step", desc)
    validate_torch_model_bundle(b)
    c.nontrivial((cid, kind, frozen, p.get("model_name"), p["return_features"]))


@M.scenario(quick=150, thorough=3000)
def refusals(c):
    t = T()
    f = lambda *s: t.as_tensor(c.rng.normal(size=s).astype(np.float32))
    tok = t.as_tensor(c.rng.integers(0, 9, size=(4, 5)))
    g = {"x": f(4, 3), "edge_index": t.zeros(2, 0, dtype=t.long)}
    bad = [
        ("backend", lambda: build("mlp", {}, f(4, 3), 2, backend=c.pick(["numpy", "sklearn", "xgboost"]))),
        ("unknown id", lambda: build(c.pick(["knn", "svm_rbf", "", "MLP", "lstm"]), {}, f(4, 3), 2)),
        ("numpy sample", lambda: build("mlp", {}, np.zeros((4, 3)), 2)),
        ("list sample", lambda: build("mlp", {}, [[0.0, 1.0]], 2)),
        ("dict without x", lambda: build("graphsage_inductive", {}, {"edge_index": g["edge_index"]}, 2)),
        ("no classes", lambda: build("mlp", {}, f(4, 3), None)),
        ("bad classes", lambda: build(c.pick(["mlp", "text_cnn", "logreg"]), {}, f(4, 9), c.pick([0, -1]))),
        ("activation", lambda: build(c.pick(["mlp"]), {"activation": c.pick(["RELU", "sigmoid", ""]), "hidden_sizes": [3], "return_features": c.chance(0.5)}, f(4, 3), 2)),
        ("hidden size", lambda: build("mlp", {"hidden_sizes": c.pick([[0], [3, -1], 0]), "return_features": c.chance(0.5)}, f(4, 3), 2)),
        ("hidden kind", lambda: build("mlp", {"hidden_sizes": c.pick(["8", 3.5, {"a": 1}])}, f(4, 3), 2)),
        ("flat image", lambda: build("image_cnn", {}, f(4, 9), 2)),
        ("image shape", lambda: build("image_cnn", {"input_shape": c.pick([[9], [1, 1, 3, 3]])}, f(4, 9), 2)),
        ("image rank", lambda: build("image_cnn", {}, f(4, 1, 1, 3, 3), 2)),
        ("audio rank", lambda: build("audio_cnn", {}, f(4, 1, 3, 3), 2)),
        ("text rank", lambda: build("text_cnn", {}, f(4, 1, 3, 3), 2)),
        ("text layout", lambda: build("text_cnn", {"input_layout": c.pick(["last", "", "channels-last"])}, f(4, 6, 3), 2)),
        ("kernel too long", lambda: build("text_cnn", {"kernel_sizes": (5, 6)}, c.pick([f(4, 4, 9), f(4, 4)]), 2)),
        ("sage layers", lambda: build("graphsage_inductive", {"hidden_sizes": [4], "num_layers": c.pick([1, 3])}, g, 2)),
        ("sage size", lambda: build("graphsage_inductive", {"hidden_sizes": c.pick([[0], [4, -2], "4"])}, g, 2)),
    ]
    name, call = c.pick(bad)
    c.raises((InductiveValidationError,), call, "refused: " + name)
    m, o = t.nn.Linear(3, 2), None
    o = t.optim.SGD(m.parameters(), lr=0.1)
    good = TorchModelBundle(model=m, optimizer=o)
    c.check(validate_torch_model_bundle(good) is good, "valid bundle accepted", "")
    still = t.nn.Linear(3, 2)
    for q in still.parameters():
        q.requires_grad_(False)
    alien = t.optim.SGD([*m.parameters(), *t.nn.Linear(3, 2).parameters()], lr=0.1)
    grouped = t.optim.SGD([{"params": [m.weight]}, {"params": list(t.nn.Linear(3, 2).parameters())}], lr=0.1)
    cases = [("not a bundle", m), ("no module", replace(good, model=lambda v: v)), ("no optimiser", replace(good, optimizer=None)), ("nothing to train", replace(good, model=still)),
             ("another network's optimiser", replace(good, optimizer=c.pick([alien, grouped]))), ("average is no module", replace(good, ema_model="ema"))]
    for what, b in cases:
        c.raises((InductiveValidationError,), lambda b=b: validate_torch_model_bundle(b), "bundle refused: " + what)
    c.check(validate_torch_model_bundle(replace(good, ema_model=copy.deepcopy(m))) is not None, "valid bundle accepted", "with an average")
    part = replace(good, optimizer=t.optim.SGD([m.weight], lr=0.1))
    c.check(validate_torch_model_bundle(part) is part, "valid bundle accepted", "a partial optimiser")
    c.nontrivial(name)
