"""I05: each deep method's optimiser steps follow the gradient of the objective it names, on the rows it says it uses."""

import dataclasses
import functools
import importlib

import torch

from modssc.inductive.deep import TorchModelBundle
from modssc.inductive.registry import get_method_class
from modssc.inductive.types import DeviceSpec, InductiveDataset

from vf import deepref, deeptape
from vf.core import Module
from vf.deepref import near

M = Module(
    "I05",
    rule="Real fits over a monitored network whose rows carry an identity; for each optimiser step the recorded parameters and rows are put through an own statement of the method's "
    "objective (with own teacher averages, queues, thresholds) and its gradient is compared with the one the optimiser applied. Non-trivial: distinct settings with at least one "
    "unlabelled row contributing.",
    preload=["torch", "modssc.inductive.registry", "modssc.inductive.deep"],
)
CPU = DeviceSpec(device="cpu")


def spec_class(mid):
    cls = get_method_class(mid)
    mod = importlib.import_module(cls.__module__)
    return cls, next(v for n, v in vars(mod).items() if n.lower() == mid.replace("_", "") + "spec")


def unambiguous(fn):
    @functools.wraps(fn)
    def run(c):
        try:
            fn(c)
        except deepref.Ambiguous:
            c.count("ambiguous_cuts")

    return run


class Problem:
    def __init__(self, c, graph=False, kinds=("L", "W", "S"), out=None, double=None):
        self.c, self.graph = c, graph
        self.K, self.nl, self.nu = c.py.randint(2, 4), c.py.randint(1, 9), c.py.randint(1, 14)
        self.d = c.py.randint(1, 4)
        self.dtype = torch.float64 if double is None or double else torch.float32
        self.out = out or c.pick(["tensor", "dict", "tuple"])
        self.y = torch.tensor(c.rng.integers(0, self.K, self.nl))
        self.seed = c.py.randrange(10_000)
        self.b = c.py.randint(1, 7)
        self.epochs = c.py.randint(1, 4)
        base = {False: c.rng.normal(size=(self.nl, self.d)), True: c.rng.normal(size=(self.nu, self.d))}
        self.data = {}
        graphs = {u: self.topology(n) for u, n in ((False, self.nl), (True, self.nu))}
        for k in dict.fromkeys([*kinds, "L", "U"]):
            un = k not in ("L", "LS")
            x = base[un] + c.rng.normal(size=base[un].shape) * {"W": 0.1, "S": 0.5, "S2": 0.6, "LS": 0.4}.get(k, 0.0)
            tag = torch.arange(len(x), dtype=self.dtype)[:, None] + deeptape.KINDS[k]
            t = torch.cat([tag, torch.tensor(x, dtype=self.dtype)], 1)
            self.data[k] = {"x": t, **graphs[un]} if graph else t
        self.kinds = kinds
        self.tape = deeptape.Tape()
        self.lr = c.pick([0.02, 0.2, 0.7])
        self.idx_u, self.ulb_size = torch.arange(self.nu), self.nu

    def topology(self, n):
        e = self.c.py.randint(0, 3 * n)
        out = {"edge_index": torch.tensor(self.c.rng.integers(0, n, (2, e)), dtype=torch.long)}
        if self.c.chance(0.7):
            out["edge_weight"] = torch.tensor(self.c.rng.choice([0.25, 0.5, 1.0, 2.0], e), dtype=self.dtype)
        return out

    def net(self, salt=0, h=None):
        h = h or getattr(self, "h", None) or self.c.py.randint(1, 5)
        self.h = h
        return deeptape.Net(self.d, h, self.K, out=self.out, seed=self.seed + salt, scale=self.c.pick([0.5, 1.5, 4.0]), dtype=self.dtype)

    def bundle(self, tag="m", ema=False, salt=0, model=None):
        m = model or self.net(salt)
        import copy

        e = copy.deepcopy(m) if ema else None
        if e is not None and self.c.chance(0.5):
            with torch.no_grad():
                for p in e.parameters():
                    p.mul_(0.0)
        for x in (m, e):
            if x is not None:
                self.tape.watch(x)
        return TorchModelBundle(model=m, optimizer=self.tape.optimiser(m, tag, self.lr), ema_model=e)

    def dataset(self, views=None, meta=None, u=False):
        d = self.data
        return InductiveDataset(X_l=d["L"], y_l=self.y, X_u=d["U"] if u else None, X_u_w=d.get("W"), X_u_s=d.get("S"), views=views, meta=meta)

    def rows(self, kind):
        d = self.data[kind]
        return d["x"] if self.graph else d


def close(c, name, got, want, mech, what, tol=2e-6):
    for n in want:
        if want[n] is None and got[n] is None:
            continue
        w = torch.zeros_like(got[n]) if want[n] is None else want[n]
        g = torch.zeros_like(w) if got[n] is None else got[n]
        lim = tol * (1 + float(w.abs().max()))
        c.check(bool(((g - w).abs() <= lim).all()), mech, lambda n=n, g=g, w=w: f"{name}: {what} of {n}: {g.flatten().tolist()[:4]} but own {w.flatten().tolist()[:4]}")


def gradient(ref, P, b, t, epoch, fn=None):
    Q = {n: v.clone().requires_grad_(True) for n, v in P.items()}
    loss = (fn or ref.loss)(Q, b, t, epoch)
    return dict(zip(Q, torch.autograd.grad(loss, list(Q.values()), allow_unused=True))) if loss.requires_grad else {n: None for n in Q}


def check_rows(c, name, p, st):
    """Every forwarded row is the data row its tag names, every forwarded graph the induced one."""
    for f in st.fwd:
        off = 0
        for k, base in deeptape.KINDS.items():
            if k not in p.data:
                continue
            ids = [int(t) - base for t in f.rows[:, 0].tolist() if base <= t < base + 1000]
            if not ids:
                continue
            got = f.rows[[i for i, t in enumerate(f.rows[:, 0].tolist()) if base <= t < base + 1000]]
            c.check(max(ids) < len(p.rows(k)) and bool((got == p.rows(k)[ids]).all()), "forwarded-row-altered", lambda k=k, ids=ids: f"{name}: {k} rows {ids} reached the model changed")
            off += len(ids)
        c.check(off == len(f.rows), "unknown-row-forwarded", lambda: f"{name}: {len(f.rows) - off} forwarded rows are no row of the data")
        if p.graph:
            edges(c, name, p, f)


def edges(c, name, p, f):
    tags = f.rows[:, 0].tolist()
    ei, w = f.x["edge_index"], f.x.get("edge_weight")
    got = sorted((tags[int(ei[0, j])], tags[int(ei[1, j])], 1.0 if w is None else float(w[j])) for j in range(ei.shape[1]))
    want = []
    for k, base in deeptape.KINDS.items():
        of_kind = [int(t) - base for t in tags if base <= t < base + 1000]
        ids = set(of_kind)
        if ids and k in p.data:
            e, ww = p.data[k]["edge_index"], p.data[k].get("edge_weight")
            want += [
                (float(base + int(e[0, j])), float(base + int(e[1, j])), 1.0 if ww is None else float(ww[j])) for j in range(e.shape[1]) if int(e[0, j]) in ids and int(e[1, j]) in ids
            ] * (len(of_kind) // len(ids))
    c.check(got == sorted(want), "forwarded-graph-differs", lambda: f"{name}: batch graph {got[:6]}, induced {sorted(want)[:6]}")


def coverage(c, name, batches, n, b, per_epoch, what):
    """Within an epoch the stream is a sequence of passes, each visiting every row exactly once."""
    full = -(-n // b)
    for e in range(0, len(batches), per_epoch):
        ep = batches[e : e + per_epoch]
        for s in range(0, len(ep), full):
            ids = [i for x in ep[s : s + full] for i in x]
            whole = len(ep[s : s + full]) == full
            c.check(
                len(ids) == len(set(ids)) and (not whole or sorted(ids) == list(range(n))) and all(len(x) <= b for x in ep),
                "rows-not-visited-once",
                lambda ids=ids: f"{name}: a pass over {n} {what} rows visited {ids} (batch size {b})",
            )
    c.count("batches_observed", len(batches))


def student_batches(st, needs, student=None):
    fw = [f for f in st.fwd if f.training or (student is not None and f.m is not student)]
    return {k: deeptape.ids_of(fw, k) for k in needs}


def settings(c, mid, fields):
    """Random values over the whole documented range of each hyper-parameter."""
    K = None
    gen = dict(
        lambda_u=lambda: c.pick([0.0, 0.5, 1.0, 3.0]), lambda_e=lambda: c.pick([0.0, 0.01, 1.0]), lambda_c=lambda: c.pick([0.0, 1.0, 2.0]), lambda_align=lambda: c.pick([0.0, 1.0, 2.0]),
        p_cutoff=lambda: c.pick([0.0, 0.35, 0.5, 0.6, 0.8, 0.95]), temperature=lambda: c.pick([0.1, 0.5, 1.0, 2.0]), ema_p=lambda: c.pick([0.5, 0.9, 0.999]),
        hard_label=lambda: c.chance(0.5), use_cat=lambda: c.chance(0.5), detach_target=lambda: c.chance(0.7), unsup_warm_up=lambda: c.pick([0.0, 0.01, 0.4, 1.0, 2.0]),
        freeze_bn=lambda: c.chance(0.5), ema_decay=lambda: c.pick([0.0, 0.5, 0.99, 1.0]), alpha=lambda: c.pick([0.0, 0.3, 0.6, 0.9]), tsa_schedule=lambda: c.pick(["none", "linear", "log", "exp"]),
        thresh_warmup=lambda: c.chance(0.5), n_sigma=lambda: c.pick([1.0, 2.0, 5.0]), per_class=lambda: c.chance(0.5), dist_align=lambda: c.chance(0.6), dist_uniform=lambda: c.chance(0.5),
        use_quantile=lambda: c.chance(0.5), clip_thresh=lambda: c.chance(0.5), contrast_p_cutoff=lambda: c.pick([0.0, 0.4, 0.8]), smoothing_alpha=lambda: c.pick([0.0, 0.5, 0.9, 1.0]),
        queue_size=lambda: c.pick([0, 1, 4, 9, 50]) if mid == "comatch" else c.pick([1, 2, 3, 20]), min_queue_fill=lambda: 0, da_len=lambda: c.pick([0, 1, 2, 32]),
        score_warmup_epochs=lambda: c.pick([0, 1, 2]), majority_class=lambda: c.pick([None, None, 0, 1]), t_proto=lambda: c.pick([0.05, 0.5, 1.0]), t_dist=lambda: c.pick([0.5, 1.5, 3.0]),
        pretrain_steps=lambda: c.pick([0, 1, 3, 5000]), dist_update_period=lambda: c.pick([1, 2, 3]), use_ema=lambda: c.chance(0.6), dist_aware=lambda: c.chance(0.6), interp_alpha=lambda: c.pick([0.0, 0.3, 1.0]),
    )  # fmt: skip
    del K
    o = {f: gen[f]() for f in fields if f in gen}
    if mid == "adsh":
        o["p_cutoff"] = c.pick([0.35, 0.5, 0.6, 0.7, 0.8, round(c.py.uniform(0.4, 0.9), 2)])
        o["score_warmup_epochs"] = c.pick([0, 0, 1, 2])
    if mid == "comatch" and o["queue_size"]:
        o["min_queue_fill"] = c.py.randint(0, o["queue_size"])
    return o


def family(c, mid):
    cls, Spec = spec_class(mid)
    ref_cls = deepref.REFS[mid]
    graph = c.chance(0.3)
    kinds = ref_cls.needs
    out = c.pick(["dict", "tuple"]) if mid == "comatch" else None
    p = Problem(c, graph=graph, kinds=kinds, out=out)
    fields = [f.name for f in dataclasses.fields(Spec)]
    o = settings(c, mid, fields) | dict(batch_size=p.b, max_epochs=p.epochs)
    views, meta = None, None
    if "LS" in kinds:
        if c.chance(0.7):
            views = {c.pick(["X_l_s", "X_l_strong", "labeled_strong"]): p.data["LS"]}
        else:
            kinds = tuple(k for k in kinds if k != "LS")
    if "S2" in kinds:
        views = {c.pick(["X_u_s1", "X_u_s_1"]): p.data["S2"]}
    if mid == "flexmatch":
        key = c.pick(["idx_u", "unlabeled_idx", "unlabeled_indices"])
        if c.chance(0.5):
            p.ulb_size = p.nu + c.py.randint(0, 6)
            p.idx_u = torch.tensor(c.rng.permutation(p.ulb_size)[: p.nu])
            meta = {key: p.idx_u, c.pick(["ulb_size", "unlabeled_size"]): p.ulb_size}
        else:
            p.idx_u = torch.tensor(c.rng.permutation(p.nu))
            meta = {key: p.idx_u}
    bundle = p.bundle(ema=mid in ("mean_teacher", "daso") and (mid == "mean_teacher" or c.chance(0.5)))
    m = cls(Spec(model_bundle=bundle, **o))
    name = f"{mid} {o} n=({p.nl},{p.nu}) {'graph' if graph else 'rows'} {p.out}"
    m.fit(p.dataset(views=views, meta=meta), device=CPU, seed=p.seed)
    steps = p.tape.steps()
    per = max(-(-p.nl // p.b), -(-p.nu // p.b))
    c.check(len(steps) == per * p.epochs, "step-count", lambda: f"{name}: {len(steps)} optimiser steps, {per * p.epochs} expected")
    ref = ref_cls(p, o, per * p.epochs)
    seen = []
    for t, st in enumerate(steps):
        if t:
            close(c, name, st.pre, steps[t - 1].post, "parameters-moved-between-steps", "value", tol=0)
        check_rows(c, name, p, st)
        b = student_batches(st, kinds, bundle.model)
        c.check(b["W"] == b["S"] and all(b[k] == b["W"] for k in kinds if k == "S2"), "views-not-paired", lambda b=b: f"{name}: weak rows {b['W']} trained against strong rows {b['S']}")
        if "LS" in kinds:
            c.check(b["L"] == b["LS"], "views-not-paired", lambda b=b: f"{name}: labelled rows {b['L']} with strong {b['LS']}")
        elif mid == "defixmatch":
            b["LS"] = b["L"]
            p.data["LS"] = p.data["L"]
        seen.append(b)
        want = gradient(ref, st.pre, b, t, t // per)
        close(c, name, st.grads, want, "gradient-differs", f"step {t} gradient")
        close(c, name, st.post, {n: st.pre[n] - p.lr * (torch.zeros_like(st.pre[n]) if g is None else g) for n, g in st.grads.items()}, "optimiser-step-altered", f"step {t} value")
        ref.after(st, b)
        c.count("optimiser_steps_checked")
    coverage(c, name, [b["L"] for b in seen], p.nl, p.b, per, "labelled")
    coverage(c, name, [b["W"] for b in seen], p.nu, p.b, per, "unlabelled")
    final_prediction(c, name, p, m, steps[-1].post)
    c.nontrivial((mid, graph, p.out, str(sorted(o.items(), key=str)), p.nl, p.nu))
    c.sample(dict(method=mid, steps=len(steps), graph=graph))


def final_prediction(c, name, p, m, P, mech="prediction-not-of-trained-model"):
    if p.graph:
        return
    X = torch.cat([p.rows("U"), p.rows("L")])
    pr = m.predict_proba(X)
    want = torch.softmax(deeptape.logits(P, X), 1)
    close(c, name, {"p": pr}, {"p": want}, mech, "probability", tol=1e-9 if p.dtype == torch.float64 else 1e-5)
    top = want.topk(2, dim=1).values
    clear = (top[:, 0] - top[:, 1]) > 1e-6
    c.check(bool((m.predict(X)[clear] == want.argmax(1)[clear]).all()), "predict-not-argmax", lambda: f"{name}: predict disagrees with the most probable class")


for _mid in deepref.REFS:

    def _make(mid=_mid):
        def run(c):
            family(c, mid)

        run.__name__ = mid
        return run

    M.scenario(quick=140 if _mid in ("adsh", "free_match") else 60, thorough=2500)(unambiguous(_make()))


def check_sgd(c, name, p, st, t):
    close(c, name, st.post, {n: st.pre[n] - p.lr * (torch.zeros_like(st.pre[n]) if g is None else g) for n, g in st.grads.items()}, "optimiser-step-altered", f"step {t} value")


def no_jump(c, name, steps):
    for a, b in zip(steps, steps[1:]):
        close(c, name, b.pre, a.post, "parameters-moved-between-steps", "value", tol=0)


def sup(ref, P, b):
    return deepref.ce(ref.lg(P, "L", b["L"]), ref.y(b["L"])).mean()


@M.scenario(quick=60, thorough=2500)
@unambiguous
def noisy_student(c):
    cls, Spec = spec_class("noisy_student")
    p = Problem(c, graph=c.chance(0.3))
    o = settings(c, "noisy_student", [f.name for f in dataclasses.fields(Spec)]) | dict(batch_size=p.b, max_epochs=p.epochs, teacher_epochs=c.py.randint(0, 2))
    only_u = c.chance(0.25)
    wk = "U" if only_u else "W"
    sk = "U" if only_u else c.pick(["S", "S", "W"])
    d = p.data
    ds = InductiveDataset(X_l=d["L"], y_l=p.y, X_u=d["U"] if only_u else None, X_u_w=None if only_u else d["W"], X_u_s=d["S"] if sk == "S" else None)
    bundle = p.bundle(ema=c.chance(0.5))
    m = cls(Spec(model_bundle=bundle, **o))
    name = f"noisy_student {o} n=({p.nl},{p.nu}) weak={wk} strong={sk}"
    m.fit(ds, device=CPU, seed=p.seed)
    steps = p.tape.steps()
    sl, per = -(-p.nl // p.b), max(-(-p.nl // p.b), -(-p.nu // p.b))
    first = sl * o["teacher_epochs"]
    c.check(len(steps) == first + per * p.epochs, "step-count", lambda: f"{name}: {len(steps)} steps")
    no_jump(c, name, steps)
    ref = deepref.Ref(p, o, per * p.epochs)
    T, seen = steps[first].pre, []
    for t, st in enumerate(steps):
        check_rows(c, name, p, st)
        mine = [f for f in st.fwd if f.m is bundle.model]
        others = [f for f in st.fwd if f.m is not bundle.model]
        b = {"L": deeptape.ids_of(mine, "L"), sk + "s": deeptape.ids_of(mine, sk), "w": deeptape.ids_of(others, wk)}
        s_ids = b[sk + "s"]
        seen.append((b["L"], b["w"]))
        if t < first:
            c.check(not s_ids and not others, "teacher-phase-uses-unlabelled", lambda: f"{name}: step {t} forwards unlabelled rows while the teacher is trained")
            want = gradient(ref, st.pre, b, t, 0, fn=lambda P, b, t, e: sup(ref, P, b))
        else:
            c.check(s_ids == b["w"], "views-not-paired", lambda: f"{name}: teacher rows {b['w']} student rows {s_ids}")
            q = torch.softmax(ref.lg(T, wk, b["w"]) / o["temperature"], 1)
            mask = deepref.at_least(q.max(1).values, o["p_cutoff"])

            def loss(P, b, t, e, q=q, mask=mask, s_ids=s_ids):
                z = ref.lg(P, sk, s_ids)
                lu = deepref.ce(z, deepref.clear_argmax(q)) if o["hard_label"] else (q * (torch.log(q + 1e-12) - torch.log_softmax(z, 1))).sum(1)
                return sup(ref, P, b) + o["lambda_u"] * deepref.warm(o, per * p.epochs, t - first) * (lu * mask).sum() / mask.sum().clamp_min(1.0)

            want = gradient(ref, st.pre, b, t, 0, fn=loss)
        close(c, name, st.grads, want, "gradient-differs", f"step {t} gradient")
        check_sgd(c, name, p, st, t)
        c.count("optimiser_steps_checked")
    coverage(c, name, [s[0] for s in seen[:first]], p.nl, p.b, sl, "labelled")
    coverage(c, name, [s[0] for s in seen[first:]], p.nl, p.b, per, "labelled")
    coverage(c, name, [s[1] for s in seen[first:]], p.nu, p.b, per, "unlabelled")
    final_prediction(c, name, p, m, steps[-1].post)
    c.nontrivial(("noisy_student", p.graph, str(sorted(o.items(), key=str)), wk, sk))


@M.scenario(quick=60, thorough=2500)
@unambiguous
def meta_pseudo_labels(c):
    cls, Spec = spec_class("meta_pseudo_labels")
    p = Problem(c, graph=c.chance(0.3), kinds=("L", "W", "S", "LS"))
    o = dict(
        uda_weight=c.pick([0.0, 1.0, 2.0]), uda_threshold=c.pick([0.0, 0.4, 0.6, 0.9]), uda_temperature=c.pick([0.2, 0.4, 1.0]), label_smoothing=c.pick([0.0, 0.1, 0.5]),
        mpl_ema=c.pick([0.0, 0.5, 0.99]), mpl_weight=c.pick([0.0, 1.0, 5.0]), batch_size=p.b, max_epochs=p.epochs, detach_target=c.chance(0.6), init_teacher_from_student=c.chance(0.5),
    )  # fmt: skip
    strong = c.chance(0.6)
    lk = "LS" if strong else "L"
    tb, sb = p.bundle("t"), p.bundle("s", salt=1)
    init_s = {n: v.detach().clone() for n, v in sb.model.named_parameters()}
    m = cls(Spec(teacher_bundle=tb, student_bundle=sb, **o))
    m.fit(p.dataset(views={c.pick(["X_l_s", "X_l_strong", "labeled_strong"]): p.data["LS"]} if strong else None), device=CPU, seed=p.seed)
    name = f"meta_pseudo_labels {o} n=({p.nl},{p.nu}) strong labelled {strong}"
    allst = p.tape.steps()
    ss, ts = [s for s in allst if s.tag == "s"], [s for s in allst if s.tag == "t"]
    per = max(-(-p.nl // p.b), -(-p.nu // p.b))
    c.check(len(ss) == len(ts) == per * p.epochs, "step-count", lambda: f"{name}: {len(ss)} student and {len(ts)} teacher steps")
    no_jump(c, name, ss)
    no_jump(c, name, ts)
    if o["init_teacher_from_student"]:
        close(c, name, ts[0].pre, init_s, "teacher-not-initialised-from-student", "value", tol=0)
    close(c, name, ss[0].pre, init_s, "parameters-moved-between-steps", "value", tol=0)
    ref, ma, seen = deepref.Ref(p, o, per * p.epochs), 0.0, []
    for t, (s, tt) in enumerate(zip(ss, ts)):
        check_rows(c, name, p, s)
        check_rows(c, name, p, tt)
        te, st = [f for f in s.fwd if f.m is tb.model], [f for f in s.fwd + tt.fwd if f.m is sb.model]
        b = dict(L=deeptape.ids_of(st, "L"), LL=deeptape.ids_of(te, lk), W=deeptape.ids_of(te, "W"), S=deeptape.ids_of(te, "S"))
        ssids = deeptape.ids_of(st, "S")
        c.check(b["W"] == b["S"] == ssids and b["L"] == b["LL"], "views-not-paired", lambda: f"{name}: {b} student {ssids}")
        seen.append(b)
        tp = torch.softmax(ref.lg(tt.pre, "S", b["S"]), 1)
        close(c, name, s.grads, gradient(ref, s.pre, b, t, 0, fn=lambda P, b, t, e: deepref.soft_ce(tp, ref.lg(P, "S", b["S"])).mean()), "gradient-differs", f"student step {t} gradient")
        dot = float(sup(ref, s.post, b) - sup(ref, s.pre, b))
        ma = o["mpl_ema"] * ma + (1 - o["mpl_ema"]) * dot

        def loss(P, b, t, e, dot=dot, ma=ma):
            z, y = ref.lg(P, lk, b["L"]), ref.y(b["L"])
            ls = o["label_smoothing"]
            q = torch.nn.functional.one_hot(y, p.K).to(z.dtype) * (1 - ls) + ls / p.K
            zw = ref.lg(P, "W", b["W"])
            zs = ref.lg(P, "S", b["S"])
            u = torch.softmax((zw.detach() if o["detach_target"] else zw) / o["uda_temperature"], 1)
            mask = deepref.at_least(u.max(1).values, o["uda_threshold"]) if o["uda_threshold"] > 0 else torch.ones(len(u), dtype=z.dtype)
            uda = (deepref.soft_ce(u, zs) * mask).sum() / mask.sum().clamp_min(1.0)
            ent = deepref.soft_ce(torch.softmax(zs, 1), zs).mean()
            return deepref.soft_ce(q, z).mean() + o["uda_weight"] * uda + o["mpl_weight"] * ent * (dot - ma)

        close(c, name, tt.grads, gradient(ref, tt.pre, b, t, 0, fn=loss), "gradient-differs", f"teacher step {t} gradient")
        check_sgd(c, name, p, s, t)
        check_sgd(c, name, p, tt, t)
        c.count("optimiser_steps_checked", 2)
    coverage(c, name, [b["L"] for b in seen], p.nl, p.b, per, "labelled")
    coverage(c, name, [b["W"] for b in seen], p.nu, p.b, per, "unlabelled")
    final_prediction(c, name, p, m, ss[-1].post)
    c.nontrivial(("meta_pseudo_labels", p.graph, str(sorted(o.items(), key=str)), strong))


def unmix(c, name, mixed, base, first):
    """For each mixed row the partner and weight: m = w*base[r] + (1-w)*base[j], w >= 1/2; first: candidates for base[r] by row."""
    out = []
    for r in range(len(mixed)):
        hits = []
        for i in first[r]:
            d = mixed[r] - base[i]
            if float(d.abs().max()) < 1e-9 * (1 + float(base[i].abs().max())):
                hits = [(i, None, 1.0)]
                break
            v = base - base[i]
            n2 = (v * v).sum(1)
            s = (v @ d) / n2.clamp_min(1e-300)
            res = (s[:, None] * v - d).abs().amax(1)
            for j in ((res < 1e-8) & (n2 > 0) & (s > 0) & (s <= 0.5 + 1e-9)).nonzero().flatten().tolist():
                hits.append((i, j, 1 - float(s[j])))
        c.check(len(hits) > 0, "mixed-row-unexplained", lambda r=r: f"{name}: row {r} of the mixed batch is no convex mixture of two rows led by its own example")
        if len(hits) != 1:
            raise deepref.Ambiguous()
        out.append(hits[0])
    return out


@M.scenario(quick=80, thorough=2500)
@unambiguous
def mixmatch(c):
    cls, Spec = spec_class("mixmatch")
    p = Problem(c)
    manifold = c.chance(0.3)
    p.d = p.d
    if manifold:
        p.h, p.out = c.py.randint(3, 5), c.pick(["dict", "tuple"])
    o = dict(lambda_u=c.pick([0.0, 1.0, 5.0]), temperature=c.pick([0.2, 0.5, 1.0]), mixup_alpha=c.pick([0.0, 0.5, 0.75, 2.0]), unsup_warm_up=c.pick([0.0, 0.4, 1.0]), freeze_bn=c.chance(0.5), batch_size=p.b, max_epochs=p.epochs)
    bundle = p.bundle()
    heads = []
    if manifold:
        lin = bundle.model.b

        def fh(f):
            heads.append((len(p.tape.ev), f.detach().clone()))
            return lin(f)

        how = c.pick(["spec", "bundle"])
        meta = {c.pick(["forward_head", "head"]): fh} | ({"prefer_manifold_mixup": True} if how == "bundle" else {})
        bundle = dataclasses.replace(bundle, meta=meta)
        o["mixup_manifold"] = how == "spec"
    m = cls(Spec(model_bundle=bundle, **o))
    m.fit(p.dataset(), device=CPU, seed=p.seed)
    name = f"mixmatch {o} n=({p.nl},{p.nu}) manifold={manifold} {p.out}"
    steps = p.tape.steps()
    per = max(-(-p.nl // p.b), -(-p.nu // p.b))
    total = per * p.epochs
    c.check(len(steps) == total, "step-count", lambda: f"{name}: {len(steps)} steps")
    no_jump(c, name, steps)
    ref, seen, mixes = deepref.Ref(p, o, total), [], 0
    for t, st in enumerate(steps):
        W, S = deeptape.ids_of([f for f in st.fwd if not f.grad], "W"), deeptape.ids_of([f for f in st.fwd if not f.grad], "S")
        c.check(W == S and len(W) > 0, "views-not-paired", lambda: f"{name}: weak {W} strong {S}")
        src = {"L": p.rows("L"), "W": p.rows("W")[W], "S": p.rows("S")[S]}
        if manifold:
            mixed = heads[t][1]
            src = {k: deeptape.feats(st.pre, v) for k, v in src.items()}
        else:
            mixed = [f for f in st.fwd if f.grad][-1].rows
        k = len(mixed) - 2 * len(W)
        c.check(1 <= k <= min(p.b, p.nl), "mixed-batch-size", lambda: f"{name}: {len(mixed)} mixed rows for {len(W)} unlabelled pairs")
        base = torch.cat([src["L"], src["W"], src["S"]])
        nl, nw = p.nl, len(W)
        first = [list(range(nl))] * k + [[nl + i] for i in range(nw)] + [[nl + nw + i] for i in range(nw)]
        mix = unmix(c, name, mixed, base, first)
        L = [i for i, _, _ in mix[:k]]
        partners = [j for _, j, _ in mix if j is not None]
        selfs = len(mix) - len(partners)
        batch = set(L) | set(range(nl, nl + 2 * nw))
        c.check(len(set(partners)) == len(partners) and set(partners) <= batch, "mix-partners-no-permutation", lambda: f"{name}: partners {partners} for batch {sorted(batch)}")
        if o["mixup_alpha"] == 0:
            c.check(selfs == len(mix), "mixed-without-mixing", lambda: f"{name}: alpha 0 yet {len(partners)} rows mixed")
        mixes += len(partners)
        seen.append((L, W))
        pu = (torch.softmax(ref.lg(st.pre, "W", W), 1) + torch.softmax(ref.lg(st.pre, "S", S), 1)) / 2
        q = deepref.sharpen(pu, o["temperature"])
        Y = torch.cat([torch.nn.functional.one_hot(p.y, p.K).to(q.dtype), q, q])
        lam = torch.tensor([w for _, _, w in mix], dtype=q.dtype)[:, None]
        i1, i2 = [i for i, _, _ in mix], [i if j is None else j for i, j, _ in mix]
        yt = lam * Y[i1] + (1 - lam) * Y[i2]

        def loss(P, b, t, e, lam=lam, i1=i1, i2=i2, yt=yt, W=W, k=k):
            if manifold:
                F0 = deeptape.feats(P, torch.cat([p.rows("L"), p.rows("W")[W], p.rows("S")[W]]))
            else:
                F0 = torch.cat([p.rows("L"), p.rows("W")[W], p.rows("S")[W]])
            z = lam * F0[i1] + (1 - lam) * F0[i2]
            z = deeptape.head(P, z) if manifold else deeptape.logits(P, z)
            return deepref.soft_ce(yt[:k], z[:k]).mean() + o["lambda_u"] * deepref.warm(o, total, t) * ((torch.softmax(z[k:], 1) - yt[k:]) ** 2).mean()

        close(c, name, st.grads, gradient(ref, st.pre, None, t, 0, fn=loss), "gradient-differs", f"step {t} gradient", tol=1e-5)
        check_sgd(c, name, p, st, t)
        c.count("optimiser_steps_checked")
    c.count("rows_mixed", mixes)
    coverage(c, name, [s[0] for s in seen], p.nl, p.b, per, "labelled")
    coverage(c, name, [s[1] for s in seen], p.nu, p.b, per, "unlabelled")
    final_prediction(c, name, p, m, steps[-1].post)
    if mixes or o["mixup_alpha"] == 0:
        c.nontrivial(("mixmatch", manifold, str(sorted(o.items(), key=str)), p.nl, p.nu))


@M.scenario(quick=60, thorough=2500)
@unambiguous
def vat(c):
    cls, Spec = spec_class("vat")
    p = Problem(c, graph=c.chance(0.3), kinds=("L", "U", "W"))
    o = dict(lambda_u=c.pick([0.0, 1.0, 3.0]), xi=c.pick([1e-4, 1e-2, 0.5]), eps=c.pick([0.1, 1.0, 2.5]), num_iters=c.py.randint(1, 3), unsup_warm_up=c.pick([0.0, 0.4, 1.0]), batch_size=p.b, max_epochs=p.epochs, freeze_bn=c.chance(0.5), detach_target=c.chance(0.6))
    uk = c.pick(["U", "W"])
    bundle = p.bundle()
    m = cls(Spec(model_bundle=bundle, **o))
    m.fit(InductiveDataset(X_l=p.data["L"], y_l=p.y, X_u=p.data["U"] if uk == "U" else None, X_u_w=p.data["W"] if uk == "W" or c.chance(0.3) else None), device=CPU, seed=p.seed)
    name = f"vat {o} n=({p.nl},{p.nu}) {'graph' if p.graph else 'rows'}"
    steps = p.tape.steps()
    per = max(-(-p.nl // p.b), -(-p.nu // p.b))
    total = per * p.epochs
    c.check(len(steps) == total, "step-count", lambda: f"{name}: {len(steps)} steps")
    no_jump(c, name, steps)
    ref, seen = deepref.Ref(p, o, total), []
    for t, st in enumerate(steps):
        lf = [f for f in st.fwd if deeptape.ids_of([f], "L")]
        uf = [f for f in st.fwd if f not in lf]
        L, U = deeptape.ids_of(lf, "L"), deeptape.ids_of(uf[:1], uk)
        x = ref.x(uk, U)
        c.check(len(uf) == o["num_iters"] + 2 and len(U) > 0, "perturbation-passes", lambda: f"{name}: {len(uf)} passes over the unlabelled batch")
        seen.append((L, U))
        rows = x["x"] if p.graph else x
        c.check(bool((uf[0].rows == rows).all()), "forwarded-row-altered", lambda: f"{name}: the clean pass saw altered rows")
        want = None
        p0 = torch.softmax(deeptape.logits(st.pre, x), 1)

        def kl(q, z):
            return (q * (torch.log(q + 1e-12) - torch.log_softmax(z, 1))).sum(1).mean()

        for it, f in enumerate(uf[1:]):
            d = f.rows - rows
            size = o["xi"] if it < o["num_iters"] else o["eps"]
            norm = d.norm(dim=1)
            if want is not None:
                c.check(bool(((d - size * want).abs() <= 1e-4 * size).all()), "perturbation-not-along-gradient", lambda d=d, want=want, size=size, it=it: f"{name}: step {t} pass {it} moved {d[0].tolist()} but own direction gives {(size * want)[0].tolist()}")
            c.check(bool(((norm - size).abs() <= 1e-5 * size).all()), "perturbation-length", lambda norm=norm, size=size, it=it: f"{name}: step {t} pass {it} lengths {norm.tolist()[:4]}, configured {size}")
            if it == o["num_iters"]:
                break
            dd = d.clone().requires_grad_(True)
            (g,) = torch.autograd.grad(kl(p0, deeptape.logits(st.pre, deeptape.with_x(x, rows + dd))), dd)
            n = g.norm(dim=1, keepdim=True)
            if float(n.min()) < 1e-9 * max(1.0, o["xi"] / 1e-2):
                raise deepref.Ambiguous()
            want = g / n
        adv = deeptape.with_x(x, uf[-1].rows)

        def loss(P, b, t, e, L=L, x=x, adv=adv):
            q = torch.softmax(deeptape.logits(deepref.det(P) if o["detach_target"] else P, x), 1)
            return sup(ref, P, {"L": L}) + o["lambda_u"] * deepref.warm(o, total, t) * kl(q, deeptape.logits(P, adv))

        close(c, name, st.grads, gradient(ref, st.pre, None, t, 0, fn=loss), "gradient-differs", f"step {t} gradient")
        check_sgd(c, name, p, st, t)
        c.count("optimiser_steps_checked")
        c.count("adversarial_rows", len(U))
    coverage(c, name, [s[0] for s in seen], p.nl, p.b, per, "labelled")
    coverage(c, name, [s[1] for s in seen], p.nu, p.b, per, "unlabelled")
    final_prediction(c, name, p, m, steps[-1].post)
    c.nontrivial(("vat", p.graph, str(sorted(o.items(), key=str)), p.nl, p.nu))


@M.scenario(quick=60, thorough=2500)
@unambiguous
def deep_co_training(c):
    cls, Spec = spec_class("deep_co_training")
    p = Problem(c, graph=c.chance(0.3), kinds=("L", "U"))
    clip = c.pick([(None, None), (None, None), (-0.5, None), (None, 0.5), (-1.0, 1.0)])
    o = dict(lambda_cot=c.pick([0.0, 1.0, 2.0]), lambda_dif=c.pick([0.0, 0.5, 1.0]), adv_eps=c.pick([0.03, 0.3, 1.0]), batch_size=p.b, max_epochs=p.epochs, freeze_bn=c.chance(0.5), detach_target=c.chance(0.6), adv_clip_min=clip[0], adv_clip_max=clip[1])
    bd = [p.bundle("1"), p.bundle("2", salt=1)]
    m = cls(Spec(model_bundle_1=bd[0], model_bundle_2=bd[1], **o))
    m.fit(p.dataset(u=True), device=CPU, seed=p.seed)
    name = f"deep_co_training {o} n=({p.nl},{p.nu}) {'graph' if p.graph else 'rows'}"
    allst = p.tape.steps()
    per = max(-(-p.nl // p.b), -(-p.nu // p.b))
    by = [[s for s in allst if s.tag == k] for k in ("1", "2")]
    c.check(len(by[0]) == len(by[1]) == per * p.epochs, "step-count", lambda: f"{name}: {[len(x) for x in by]} steps")
    for s in by:
        no_jump(c, name, s)
    ref, seen = deepref.Ref(p, o, per * p.epochs), []
    for t, pair in enumerate(zip(*by)):
        fw = pair[0].fwd + pair[1].fwd
        own, clean, adv = [], [], []
        for k in (0, 1):
            f = [e for e in fw if e.m is bd[k].model]
            lu = (deeptape.ids_of(f[:1], "L"), deeptape.ids_of(f[:1], "U"))
            clean.append(lu)
            x = deeptape.union([ref.x("L", lu[0]), ref.x("U", lu[1])])
            own.append(x)
            base = x["x"] if p.graph else x
            odd = [e for e in f if e.rows.shape != base.shape or not bool((e.rows == base).all())]
            c.check(len(odd) <= 1 and len(f) == 3, "unexpected-forward-passes", lambda odd=odd, f=f: f"{name}: model {k + 1} made {len(f)} passes, {len(odd)} of them not on its clean batch")
            adv.append(odd[0] if odd else f[-1])
        c.check(clean[0][1] == clean[1][1] and len(clean[0][0]) == len(clean[1][0]), "views-not-paired", lambda: f"{name}: the two models saw unlabelled rows {clean[0][1]} and {clean[1][1]}")
        seen.append(clean)
        P0 = [s.pre for s in pair]
        made = []
        for k in (0, 1):
            base = own[k]["x"] if p.graph else own[k]
            xx = base.clone().requires_grad_(True)
            z = deeptape.logits(P0[k], deeptape.with_x(own[k], xx))
            tg = torch.cat([ref.y(clean[k][0]), deepref.clear_argmax(z[len(clean[k][0]) :])])
            (g,) = torch.autograd.grad(deepref.ce(z, tg).mean(), xx)
            if bool(((g.abs() < 1e-13) & (g != 0)).any()) or bool((g[:, 1:].abs() < 1e-13).any()):
                raise deepref.Ambiguous()
            a = base + o["adv_eps"] * g.sign()
            a = a.clamp(min=o["adv_clip_min"], max=o["adv_clip_max"]) if clip != (None, None) else a
            made.append(a)
            seen_rows = adv[1 - k].rows
            c.check(seen_rows.shape == a.shape and bool(((seen_rows - a).abs() <= 1e-9).all()), "adversarial-rows-differ", lambda a=a, s=seen_rows: f"{name}: step {t} adversarial rows {s[0].tolist()} own {a[0].tolist()}")

        def both(P1, P2):
            z1, z2 = deeptape.logits(P1, own[0]), deeptape.logits(P2, own[1])
            n1, n2 = len(clean[0][0]), len(clean[1][0])
            q1, q2 = torch.softmax(z1, 1), torch.softmax(z2, 1)
            H = lambda q: -(q * torch.log(q + 1e-12)).sum(1)  # noqa: E731
            u1, u2 = q1[n1:], q2[n2:]
            js = (H((u1 + u2) / 2) - (H(u1) + H(u2)) / 2).mean()
            if o["detach_target"]:
                q1, q2 = q1.detach(), q2.detach()
            dif = deepref.soft_ce(q1, deeptape.logits(P2, deeptape.with_x(own[0], made[0]))).mean() + deepref.soft_ce(q2, deeptape.logits(P1, deeptape.with_x(own[1], made[1]))).mean()
            s = deepref.ce(z1[:n1], ref.y(clean[0][0])).mean() + deepref.ce(z2[:n2], ref.y(clean[1][0])).mean()
            return s + o["lambda_cot"] * js + o["lambda_dif"] * dif

        for k in (0, 1):
            other = deepref.det(P0[1 - k])
            want = gradient(ref, P0[k], None, t, 0, fn=lambda P, b, t, e, k=k, other=other: both(P, other) if k == 0 else both(other, P))
            close(c, name, pair[k].grads, want, "gradient-differs", f"model {k + 1} step {t} gradient")
            check_sgd(c, name, p, pair[k], t)
            c.count("optimiser_steps_checked")
    for k in (0, 1):
        coverage(c, name, [s[k][0] for s in seen], p.nl, p.b, per, "labelled")
        coverage(c, name, [s[k][1] for s in seen], p.nu, p.b, per, "unlabelled")
    if not p.graph:
        X = torch.cat([p.rows("U"), p.rows("L")])
        want = sum(torch.softmax(deeptape.logits(s[-1].post, X), 1) for s in by) / 2
        close(c, name, {"p": m.predict_proba(X)}, {"p": want}, "prediction-not-of-trained-model", "probability", tol=1e-9)
    c.nontrivial(("deep_co_training", p.graph, str(sorted(o.items(), key=str)), p.nl, p.nu))


@M.scenario(quick=60, thorough=2500)
@unambiguous
def simclr_v2(c):
    cls, Spec = spec_class("simclr_v2")
    p = Problem(c, graph=c.chance(0.25))
    pe, fe, de = c.py.randint(0, 2), c.py.randint(0, 2), c.py.randint(0, 2)
    if pe + fe + de == 0:
        fe = 1
    o = dict(temperature=c.pick([0.2, 0.5, 1.0]), distill_temperature=c.pick([0.5, 1.0, 2.0]), alpha=c.pick([0.0, 0.3, 1.0]), batch_size=p.b, pretrain_epochs=pe, finetune_epochs=fe, distill_epochs=de, transfer_pretrain=c.chance(0.6), use_labeled_in_distill=c.chance(0.6), freeze_bn=c.chance(0.5), detach_target=c.chance(0.6))
    own_pre, own_stu = c.chance(0.5), c.chance(0.5)
    fb = p.bundle("f", salt=1)
    pb = p.bundle("p") if own_pre else None
    sb = p.bundle("s", salt=2) if own_stu else None
    m = cls(Spec(pretrain_bundle=pb, finetune_bundle=fb, student_bundle=sb, **o))
    start = {k: {n: v.detach().clone() for n, v in bb.model.named_parameters()} for k, bb in (("f", fb), ("p", pb), ("s", sb)) if bb is not None}
    m.fit(p.dataset(), device=CPU, seed=p.seed)
    name = f"simclr_v2 {o} n=({p.nl},{p.nu}) own pretrain {own_pre} own student {own_stu} {p.out} {'graph' if p.graph else 'rows'}"
    steps = p.tape.steps()
    nu, nl = -(-p.nu // p.b), -(-p.nl // p.b)
    per = max(nu, nl if o["use_labeled_in_distill"] else 1)
    n1, n2, n3 = pe * nu, fe * nl, de * per
    c.check(len(steps) == n1 + n2 + n3, "step-count", lambda: f"{name}: {len(steps)} steps, expected {n1}+{n2}+{n3}")
    A, B, D = steps[:n1], steps[n1 : n1 + n2], steps[n1 + n2 :]
    tags = (["p" if own_pre else "f"] * n1) + ["f"] * n2 + (["s" if own_stu else "f"] * n3)
    c.check([s.tag for s in steps] == tags, "stage-trains-wrong-model", lambda: f"{name}: optimisers stepped {[s.tag for s in steps]}, expected {tags}")
    state, seen = dict(start), {"A": [], "B": [], "D": []}
    ref, teacher = deepref.Ref(p, o, 1), None

    def proj(P, x):
        return deeptape.feats(P, x) if p.out == "dict" else deeptape.logits(P, x)

    for t, st in enumerate(steps):
        if t == n1 and own_pre and n1 and o["transfer_pretrain"] and (fe or de):
            state["f"] = state["p"]
        close(c, name, st.pre, state[st.tag], "parameters-moved-between-steps", f"start of step {t} value", tol=0)
        check_rows(c, name, p, st)
        if st in D and teacher is None:
            teacher = state["f"]
        mine = [f for f in st.fwd if f.m is {"f": fb, "p": pb, "s": sb}[st.tag].model]
        other = [f for f in st.fwd if f not in mine]
        if st in A:
            W, S = deeptape.ids_of(mine, "W"), deeptape.ids_of(mine, "S")
            c.check(W == S and not other, "views-not-paired", lambda: f"{name}: contrastive pairs {W} / {S}")
            seen["A"].append(W)

            def loss(P, b, t, e, W=W, S=S):
                z = torch.cat([proj(P, ref.x("W", W)), proj(P, ref.x("S", S))])
                z = z / z.norm(dim=1, keepdim=True).clamp_min(1e-12)
                s = z @ z.T / o["temperature"]
                n, k = len(z), len(W)
                keep = ~torch.eye(n, dtype=torch.bool)
                out = 0.0
                for i in range(n):
                    out = out - s[i, (i + k) % n] + torch.logsumexp(s[i][keep[i]], 0)
                return out / n
        elif st in B:
            L = deeptape.ids_of(mine, "L")
            seen["B"].append(L)
            c.check(not other, "teacher-used-while-finetuning", lambda: f"{name}: another model ran during fine-tuning")

            def loss(P, b, t, e, L=L):
                return sup(ref, P, {"L": L})
        else:
            L, S, W = deeptape.ids_of(mine, "L"), deeptape.ids_of(mine, "S"), deeptape.ids_of(other, "W")
            c.check(W == S and not any(f.training for f in other), "views-not-paired", lambda: f"{name}: teacher rows {W} student rows {S}")
            c.check(bool(L) == o["use_labeled_in_distill"], "labelled-rows-in-distillation", lambda: f"{name}: labelled rows {L} used in distillation")
            seen["D"].append((L, W))
            q = torch.softmax(ref.lg(teacher, "W", W) / o["distill_temperature"], 1)

            def loss(P, b, t, e, L=L, S=S, q=q):
                dl = deepref.soft_ce(q, ref.lg(P, "S", S) / o["distill_temperature"]).mean()
                return (1 - o["alpha"]) * sup(ref, P, {"L": L}) + o["alpha"] * dl if o["use_labeled_in_distill"] else dl

        close(c, name, st.grads, gradient(ref, st.pre, None, t, 0, fn=loss), "gradient-differs", f"step {t} gradient")
        check_sgd(c, name, p, st, t)
        state[st.tag] = st.post
        c.count("optimiser_steps_checked")
    if n1 and own_pre and o["transfer_pretrain"] and (fe or de) and not (n2 + n3):
        state["f"] = state["p"]
    coverage(c, name, seen["A"], p.nu, p.b, nu, "unlabelled")
    coverage(c, name, seen["B"], p.nl, p.b, nl, "labelled")
    coverage(c, name, [w for _, w in seen["D"]], p.nu, p.b, per, "unlabelled")
    if o["use_labeled_in_distill"]:
        coverage(c, name, [x for x, _ in seen["D"]], p.nl, p.b, per, "labelled")
    final = "s" if own_stu and de else ("f" if fe or de else ("p" if own_pre else "f"))
    final_prediction(c, name, p, m, state[final])
    c.nontrivial(("simclr_v2", p.graph, str(sorted(o.items(), key=str)), own_pre, own_stu, p.out))


class Shared(torch.nn.Module):
    def __init__(self, d, h, seed, dtype, out):
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        self.a, self.out = torch.nn.Linear(d, h, dtype=dtype), out
        with torch.no_grad():
            for q in self.parameters():
                q.copy_(torch.randn(q.shape, generator=g, dtype=torch.float64))

    def forward(self, x):
        f = torch.tanh(self.a(deeptape.mixed(x)[..., 1:]))
        return {"feat": f} if self.out == "dict" else f


class Head(torch.nn.Module):
    def __init__(self, h, k, seed, dtype, scale):
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        self.b = torch.nn.Linear(h, k, dtype=dtype)
        with torch.no_grad():
            for q in self.parameters():
                q.copy_(torch.randn(q.shape, generator=g, dtype=torch.float64) * scale)

    def forward(self, f):
        return self.b(f)


@M.scenario(quick=60, thorough=2500)
@unambiguous
def trinet(c):
    cls, Spec = spec_class("trinet")
    p = Problem(c, graph=c.chance(0.25), kinds=("L", "U"))
    o = dict(
        sigma0=c.pick([0.4, 0.6, 0.8]), sigma_os=c.pick([0.0, 0.25]), sigma_decay=c.pick([0.0, 0.05, 0.3]), output_smearing_std=0.0, pool_base=c.pick([1, 2, 1000]), max_rounds=c.py.randint(1, 5),
        fine_tune_interval=c.pick([0, 1, 2, 3]), batch_size=p.b, init_epochs=c.py.randint(1, 2), train_epochs=c.py.randint(1, 2), des_passes=c.pick([1, 2, 3]), des_drop_fraction=c.pick([0.0, 0.34]),
        labeling_stability_passes=c.pick([1, 2]), freeze_bn=c.chance(0.5),
    )  # fmt: skip
    h, scale = c.py.randint(1, 4), c.pick([0.7, 2.0, 5.0])
    sh = p.tape.watch(Shared(p.d, h, p.seed, p.dtype, c.pick(["tensor", "dict"])))
    hs = [Head(h, p.K, p.seed + 1 + i, p.dtype, scale) for i in range(3)]
    sbun = TorchModelBundle(model=sh, optimizer=p.tape.optimiser(sh, "sh", p.lr))
    hb = tuple(TorchModelBundle(model=x, optimizer=p.tape.optimiser(x, i, p.lr)) for i, x in enumerate(hs))
    SH = {n: v.detach().clone() for n, v in sh.named_parameters()}
    HS = [{n: v.detach().clone() for n, v in x.named_parameters()} for x in hs]
    m = cls(Spec(shared_bundle=sbun, head_bundles=hb, **o))
    m.fit(p.dataset(u=True), device=CPU, seed=p.seed)
    name = f"trinet {o} n=({p.nl},{p.nu}) {'graph' if p.graph else 'rows'}"
    steps = p.tape.steps()
    ref, pos, labelled = deepref.Ref(p, o, 1), 0, 0

    def out(shp, hp, x):
        return deeptape.feats(shp, x) @ hp["b.weight"].T + hp["b.bias"]

    def train(i, extra, update, epochs, what):
        """Consume the steps of one call: labelled rows plus the pseudo-labelled ones given."""
        nonlocal pos, SH
        n = p.nl + len(extra)
        per = -(-n // p.b)
        visits = []
        for k in range(epochs * per):
            c.check(pos < len(steps) and steps[pos].tag == i, "stage-trains-wrong-model", lambda k=k: f"{name}: {what}: step {k} of head {i} missing, optimiser steps {[s.tag for s in steps[pos : pos + 3]]}")
            st = steps[pos]
            pos += 1
            nxt = None
            if update:
                c.check(pos < len(steps) and steps[pos].tag == "sh", "shared-layers-not-trained", lambda: f"{name}: {what}: the shared layers took no step with head {i}")
                nxt = steps[pos]
                pos += 1
            fw = [f for f in st.fwd if f.training == update][-1:]
            L, U = deeptape.ids_of(fw, "L"), deeptape.ids_of(fw, "U")
            c.check(set(U) <= set(extra), "unlabelled-row-wrongly-trained-on", lambda U=U: f"{name}: {what}: trained on unlabelled rows {U}, own selection {sorted(extra)}")
            visits.append([("L", v) for v in L] + [("U", v) for v in U])
            ids = [ref.x("L", L)] if L else []
            if U:
                ids.append(ref.x("U", U))
            if p.graph:
                x = fw[0].x
                tg = [int(v) for v in fw[0].rows[:, 0].tolist()]
            else:
                x = fw[0].x
                tg = [int(v) for v in x[:, 0].tolist()]
            base = torch.stack([(p.rows("L")[v] if v < 1000 else p.rows("U")[v - 5000]) for v in tg])
            c.check(bool((base == fw[0].rows).all()), "forwarded-row-altered", lambda: f"{name}: {what}: a forwarded row was changed")
            y = torch.tensor([int(p.y[v]) if v < 1000 else extra[v - 5000] for v in tg])
            close(c, name, st.pre, HS[i], "parameters-moved-between-steps", f"{what} head {i} value", tol=0)
            want = gradient(ref, HS[i], None, 0, 0, fn=lambda P, b, t, e: deepref.ce(out(SH, P, x), y).mean())
            close(c, name, st.grads, want, "gradient-differs", f"{what} head {i} gradient")
            HS[i] = st.post
            if nxt is not None:
                close(c, name, nxt.pre, SH, "parameters-moved-between-steps", f"{what} shared value", tol=0)
                hp = st.pre
                want = gradient(ref, SH, None, 0, 0, fn=lambda P, b, t, e: deepref.ce(out(P, hp, x), y).mean())
                close(c, name, nxt.grads, want, "gradient-differs", f"{what} shared gradient")
                SH = nxt.post
            c.count("optimiser_steps_checked")
        whole = [("L", v) for v in range(p.nl)] + [("U", v) for v in sorted(extra)]
        for e in range(epochs):
            got = sorted(v for b in visits[e * per : (e + 1) * per] for v in b)
            c.check(got == sorted(whole), "rows-not-visited-once", lambda got=got: f"{name}: {what}: an epoch of head {i} visited {got[:20]}, expected {whole[:20]}")

    for i in range(3):
        train(i, {}, True, o["init_epochs"], "initial training")
    fresh, sigma = True, o["sigma0"]
    for t in range(1, o["max_rounds"] + 1):
        pool = min(o["pool_base"] * 2**t, p.nu)
        if pool == p.nu and o["fine_tune_interval"] > 0 and t % o["fine_tune_interval"] == 0:
            for i in range(3):
                train(i, {}, True, o["init_epochs"], f"round {t} fine-tuning")
            fresh, sigma = True, max(0.0, sigma - o["sigma_decay"])
            continue
        cut = min(1.0, max(0.0, sigma - o["sigma_os"] if fresh else sigma))
        fresh = False
        for v in range(3):
            ev = [f for f in steps[pos].fwd if not f.training] if pos < len(steps) else []
            # the scan over the pool is the run of eval-mode passes over unlabelled rows before the first training pass
            scan = [f for f in ev if deeptape.ids_of([f], "U") and not deeptape.ids_of([f], "L")]
            order = []
            for f in scan:
                for r in deeptape.ids_of([f], "U"):
                    order.append(r)
            order = order[:pool]
            c.check(len(set(order)) == len(order) == pool, "pool-size", lambda order=order: f"{name}: round {t}: pool of {sorted(order)}, {pool} rows expected")
            keep = {}
            j, h2 = [k for k in range(3) if k != v]
            for s in range(0, pool, p.b):
                ids = order[s : s + p.b]
                x = scan[s // p.b].x if p.graph else ref.x("U", ids)
                pj, ph = torch.softmax(out(SH, HS[j], x), 1), torch.softmax(out(SH, HS[h2], x), 1)
                yj, yh = deepref.clear_argmax(pj), deepref.clear_argmax(ph)
                conf = (pj.max(1).values + ph.max(1).values) / 2
                near(conf[yj == yh], cut)
                keep.update({r: int(a) for r, a, b, q in zip(ids, yj, yh, conf) if a == b and q >= cut})
            if p.graph and (o["des_passes"] > 1 or o["labeling_stability_passes"] > 1):
                c.count("graph_filter_not_modelled")
                return
            labelled += len(keep)
            train(v, keep, v == 0, o["train_epochs"], f"round {t} head {v}")
    c.check(pos == len(steps), "step-count", lambda: f"{name}: {len(steps) - pos} optimiser steps beyond the configured rounds")
    c.count("pseudo_labelled_rows", labelled)
    if not p.graph:
        X = torch.cat([p.rows("U"), p.rows("L")])
        want = sum(torch.softmax(out(SH, hp, X), 1) for hp in HS) / 3
        close(c, name, {"p": m.predict_proba(X)}, {"p": want}, "prediction-not-of-trained-model", "probability", tol=1e-9)
    if labelled:
        c.nontrivial(("trinet", p.graph, str(sorted(o.items(), key=str)), p.nl, p.nu))
