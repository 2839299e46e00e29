"""T01: graph label-inference solvers compute the solution their definition gives, on every backend."""
import numpy as np
from modssc.transductive.methods.classic.dynamic_label_propagation import DynamicLabelPropagationSpec, dynamic_label_propagation
from modssc.transductive.methods.classic.graph_mincuts import GraphMincutsSpec, graph_mincuts
from modssc.transductive.methods.classic.label_propagation import LabelPropagationSpec, label_propagation
from modssc.transductive.methods.classic.label_spreading import LabelSpreadingSpec, label_spreading
from modssc.transductive.methods.classic.laplace_learning import laplace_learning
from modssc.transductive.methods.classic.lazy_random_walk import LazyRandomWalkSpec, lazy_random_walk
from modssc.transductive.methods.classic.tsvm import TSVMTransductiveSpec
from modssc.transductive.methods.pde.p_laplace_learning import PLaplaceLearningSpec, p_laplace_learning
from modssc.transductive.methods.pde.poisson_learning import PoissonLearningSpec, poisson_learning
from modssc.transductive.methods.pde.poisson_mbo import PoissonMBOSpec, poisson_mbo
from modssc.transductive.registry import get_method_class

from vf import tgen
from vf.core import Module

M = Module(
    "T01",
    rule="Generated graphs (weighted or not, directed, self-loops, duplicate edges, several components, isolated nodes) solved by the real code on each backend and through the "
    "method wrapper, compared with a dense float64 solver written from the definition (min-cut: exhaustive search; p-Laplace: energy). Non-trivial: distinct (method, backend, options, graph kind).",
    preload=["torch", "scipy.sparse.csgraph", "modssc.transductive.registry"],
)


def problem(c, *, binary=False, symmetric=None, connected=None, loops=None, nmax=14):
    n = c.py.randint(3, nmax)
    k = 2 if binary or n < 5 else c.pick([2, 2, 3, 4])
    y, m = tgen.labels(c, n, k)
    kind = dict(connected=c.chance(0.75) if connected is None else connected, symmetric=c.chance(0.6) if symmetric is None else symmetric,
                loops=c.chance(0.25) if loops is None else loops, dups=c.chance(0.2))
    ei, w = tgen.edges(c, n, **kind)
    if c.chance(0.3):
        y = np.where(m, y, c.pick([-1, y]) if c.chance(0.5) else y)
    A, Y = tgen.dense(n, ei, w), tgen.onehot(y, m, k)
    return n, k, y, m, ei, w, A, Y, kind


def run(c, fn, n, ei, w, y, m, spec, backend):
    kw = dict(n_nodes=n, edge_index=ei.copy(), edge_weight=None if w is None else w.copy(), y=y.copy(), labeled_mask=m.copy())
    if spec is not None:
        kw["spec"] = spec
    if backend is not None:
        kw["backend"] = backend
        if backend == "torch":
            kw["device"] = "cpu"
    return fn(**kw)


def through_method(c, mid, spec, n, ei, w, y, m, device=None):
    d = tgen.data(c.rng.normal(size=(n, 2)).astype(np.float32), y, ei, w, m)
    return get_method_class(mid)(spec).fit(d, device=device, seed=c.py.randrange(100)).predict_proba(d)


def close(c, F, R, mech, desc, tol=2e-4):
    F = np.asarray(F, float)
    ok = F.shape == R.shape and np.all(np.isfinite(F)) and np.max(np.abs(F - R), initial=0.0) <= tol * max(1.0, np.max(np.abs(R), initial=0.0))
    c.check(ok, mech, lambda: f"{desc}: largest difference {np.max(np.abs(F - R)) if F.shape == R.shape else (F.shape, R.shape)}; got {F[:4].tolist()} expected {R[:4].tolist()}")


@M.scenario(quick=880, thorough=8000)
def propagation(c):
    n, k, y, m, ei, w, A, Y, kind = problem(c)
    mode, norm_rows, it, tol = c.pick(["rw", "sym"]), c.chance(0.6), c.pick([1, 2, 7, 200, 2000]), c.pick([1e-6, 1e-4, 1e-3, 1e-2, 0.0])
    if mode == "sym" and np.any((A.sum(axis=1) == 0) & (A.sum(axis=0) > 0)):
        mode = "rw"  # symmetric normalisation is undefined for a source without incoming weight
    backend = c.pick(["numpy", "torch", "auto", "method", "method-cpu"])
    if c.chance(0.5):
        name, spec = "label_propagation", LabelPropagationSpec(norm=mode, max_iter=it, tol=tol, normalize_rows=norm_rows)
        refs, fn = [tgen.ref_lp(A, Y, m, mode=mode, max_iter=it, tol=t, normalize=norm_rows) for t in (tol, tol * 1.01, tol * 0.99)], label_propagation
    else:
        alpha = c.pick([0.0, 0.3, 0.9, 0.99])
        name, spec = "label_spreading", LabelSpreadingSpec(alpha=alpha, norm=mode, max_iter=it, tol=tol, normalize_rows=norm_rows)
        refs, fn = [tgen.ref_ls(A, Y, alpha=alpha, mode=mode, max_iter=it, tol=t, normalize=norm_rows) for t in (tol, tol * 1.01, tol * 0.99)], label_spreading
    R = refs[0]
    if any(np.max(np.abs(R - r)) > 1e-4 for r in refs):  # the stop falls on the tolerance itself
        c.count("skipped:stop-on-the-tolerance")
        return
    desc = f"{name} {backend} n={n} k={k} {spec} {kind}"
    if backend.startswith("method"):
        F = through_method(c, name, spec, n, ei, w, y, m, device="cpu" if backend == "method-cpu" else None)
    else:
        F = run(c, fn, n, ei, w, y, m, spec, backend).F
    # where the reference row is (nearly) zero, normalisation amplifies rounding
    ok = slice(None)
    if norm_rows:
        raw = tgen.ref_lp(A, Y, m, mode=mode, max_iter=it, tol=0.0, normalize=False) if name == "label_propagation" else None
        if raw is not None:
            ok = (raw.sum(axis=1) > 1e-5) | (raw.sum(axis=1) == 0)
    close(c, np.asarray(F)[ok], R[ok], f"{name}-solution-wrong", desc, tol=1e-3)
    if name == "label_propagation":
        c.check(np.array_equal(np.asarray(F)[m], Y[m]), "labeled-node-not-clamped", desc)
    c.nontrivial((name, backend, mode, norm_rows, it == 1, *sorted(kind.items())))


@M.scenario(quick=640, thorough=6000)
def harmonic(c):
    n, k, y, m, ei, w, A, Y, kind = problem(c, connected=True, symmetric=True if c.chance(0.8) else None)
    k = max(k, int(y.max()) + 1)
    L = np.diag(A.sum(axis=1)) - A
    u = ~m
    backend = c.pick(["numpy", "torch", "auto", "method", "method-cpu"])
    desc = f"laplace {backend} n={n} {kind}"
    if u.any() and np.linalg.cond(L[np.ix_(u, u)]) > 1e4:
        return
    R = tgen.ref_laplace(A, Y, m)
    F = through_method(c, "laplace_learning", None, n, ei, w, y, m, device="cpu" if backend == "method-cpu" else None) if backend.startswith("method") else run(c, laplace_learning, n, ei, w, y, m, None, backend).F
    close(c, F, R, "harmonic-solution-wrong", desc, tol=1e-3)
    c.check(np.array_equal(np.asarray(F)[m], Y[m]), "labeled-node-not-clamped", desc)
    c.check(np.asarray(F).min() >= -1e-3 and np.asarray(F).max() <= 1 + 1e-3, "maximum-principle-broken", desc)
    c.nontrivial(("laplace", backend, w is None, *sorted(kind.items())))


@M.scenario(quick=480, thorough=5000)
def walks(c):
    n, k, y, m, ei, w, A, Y, kind = problem(c, binary=True, connected=True)
    y = np.where(y < 0, 0, y) if c.chance(0.5) else y
    backend = c.pick(["numpy", "torch", "auto", "method", "method-cpu"])
    if c.chance(0.5):
        alpha = c.pick([0.1, 0.5, 0.9, 0.99])
        R = tgen.ref_lrw(A, y, m, alpha)
        spec, desc = LazyRandomWalkSpec(alpha=alpha), f"lazy_random_walk {backend} n={n} alpha={alpha} {kind}"
        F = through_method(c, "lazy_random_walk", spec, n, ei, w, y, m, device="cpu" if backend == "method-cpu" else None) if backend.startswith("method") else run(c, lazy_random_walk, n, ei, w, y, m, spec, backend).F
        sure = np.abs(R) > 1e-4 * np.max(np.abs(R))
        want = np.stack([R < 0, R >= 0], axis=1).astype(float)
        c.check(np.array_equal(np.asarray(F)[sure], want[sure]), "lazy-walk-solution-wrong", lambda: f"{desc}: f={R.tolist()} F={np.asarray(F).tolist()}")
        c.nontrivial(("lrw", backend, alpha, *sorted(kind.items())))
    else:
        kk, alpha, lam, it = c.pick([1, 2, 3, 30]), c.pick([0.0, 0.05, 0.3]), c.pick([0.0, 0.1]), c.pick([1, 3, 10, 30])
        W = tgen.sym0(A)
        off = np.where(np.eye(n, dtype=bool), 0, W)
        if tgen.knn_tied(A, kk):
            return
        spec = DynamicLabelPropagationSpec(k_neighbors=kk, alpha=alpha, lambda_value=lam, max_iter=it)
        R = tgen.ref_dlp(A, tgen.onehot(y, m, 2), m, k=kk, alpha=alpha, lam=lam, iters=it)
        if not np.all(np.isfinite(R)) or np.abs(R).max() > 1e6:
            return
        desc = f"dlp {backend} n={n} {spec} {kind} min_degree={int((off > 0).sum(1).min())}"
        F = through_method(c, "dynamic_label_propagation", spec, n, ei, w, y, m, device="cpu" if backend == "method-cpu" else None) if backend.startswith("method") else run(c, dynamic_label_propagation, n, ei, w, y, m, spec, backend).F
        close(c, F, R, "dynamic-propagation-wrong", desc, tol=2e-3)
        c.nontrivial(("dlp", backend, kk, alpha, lam, it))


@M.scenario(quick=480, thorough=4000)
def mincut(c):
    n, k, y, m, ei, w, A, Y, kind = problem(c, binary=True, nmax=11)
    y = np.where(y < 0, 0, y)
    scale, lo = c.pick([1000.0, 1.0, 37.0]), c.pick([1, 5])
    cap = np.maximum(np.rint((np.ones(ei.shape[1]) if w is None else w.astype(float)) * scale).astype(np.int64), lo)
    C = np.zeros((n, n), dtype=np.int64)
    np.add.at(C, (ei[0], ei[1]), cap)
    np.fill_diagonal(C, 0)
    spec = GraphMincutsSpec(capacity_scale=scale, min_capacity=lo)
    F = through_method(c, "graph_mincuts", spec, n, ei, w, y, m) if c.chance(0.4) else graph_mincuts(n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=m, spec=spec).F
    side = np.asarray(F)[:, 1] == 1.0
    desc = f"mincut n={n} E={ei.shape[1]} {spec} {kind}"
    c.check(np.array_equal(np.asarray(F), np.stack([~side, side], axis=1).astype(float)), "cut-not-a-partition", desc)
    c.check(side[m & (y == 1)].all() and not side[m & (y == 0)].any(), "labeled-node-not-clamped", desc)
    got, best = int(tgen.cut_value(C, side)), int(tgen.best_cut(C, y, m))
    c.check(got == best, "cut-not-minimal", lambda: f"{desc}: cut {got} but minimum is {best}")
    c.nontrivial((scale, lo, best == 0, *sorted(kind.items())))


@M.scenario(quick=560, thorough=5000)
def poisson(c):
    n, k, y, m, ei, w, A, Y, kind = problem(c, symmetric=True)
    lap, eps, center, backend = c.pick(["sym", "sym", "sym", "rw"]), c.pick([1e-6, 1e-3, 0.1]), c.chance(0.7), c.pick(["numpy", "torch", "auto", "method"])
    spec = PoissonLearningSpec(backend="numpy" if backend == "method" else backend, laplacian_kind=lap, eps=eps, center_sources=center)
    R, Mx, B = tgen.ref_poisson(A, Y, m, kind=lap, eps=eps, center=center)
    if np.linalg.cond(Mx) > 1e4:
        return
    desc = f"poisson {backend} n={n} k={k} {spec} {kind}"
    res = poisson_learning(n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=m, spec=spec)
    if lap == "rw" and not res.residual <= 1e-4:
        c.count("rw_not_converged")
        c.fail("poisson-rw-does-not-converge", f"{desc}: residual {res.residual} after {res.n_iter} iterations, |F| up to {np.abs(res.F).max()}")
        return
    F = through_method(c, "poisson_learning", spec, n, ei, w, y, m) if backend == "method" else res.F
    if lap == "sym" and np.shape(F) == B.shape and res.n_iter < spec.max_iter:
        left = np.linalg.norm(B - Mx @ np.asarray(F, float), axis=0).max()
        c.check(left <= 10 * spec.tol + 2e-6 * np.linalg.norm(F), "stopped-before-the-tolerance", lambda: f"{desc}: residual {left:.2e} after {res.n_iter} iterations, reported {res.residual:.2e}")
    close(c, F, R, "poisson-solution-wrong", desc, tol=5e-3 if lap == "rw" else 2e-3)
    c.nontrivial((backend, lap, eps, center, *sorted(kind.items())))


@M.scenario(quick=400, thorough=4000)
def p_laplace(c):
    n, k, y, m, ei, w, A, Y, kind = problem(c, connected=True)
    y = np.where(y < 0, 0, y)
    p = c.pick([2.0, 2.0, 3.0, 4.0])
    W = A + A.T
    np.fill_diagonal(W, 0.0)
    u = ~m
    if not u.any() or not W[np.ix_(u, m)].any() or (w is not None and w.max() < 0.01):  # the solver's tolerance is absolute
        return
    desc = f"p_laplace p={p} n={n} k={k} {kind}"
    spec = PLaplaceLearningSpec(p=p)
    F = np.asarray(through_method(c, "p_laplace_learning", spec, n, ei, w, y, m) if c.chance(0.4) else p_laplace_learning(n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=m, spec=spec).F, float)
    c.check(np.array_equal(F[m], Y[m]), "labeled-node-not-clamped", desc)
    R = tgen.ref_plaplace(A, Y, m, p=p)
    if p == 2.0:
        close(c, F[u], tgen.softmax(R), "p-laplace-solution-wrong", desc, tol=1e-3)
        c.nontrivial((p, k, w is None, *sorted(kind.items())))
        return
    close(c, F[u], tgen.softmax(R), "p-laplace-solution-wrong", desc, tol=0.04)
    if k == 2:
        z = (1 + np.log(F[u, 1] / F[u, 0])) / 2

        def energy(v):
            x = Y[:, 1].copy()
            x[u] = v
            return float((W * np.abs(x[:, None] - x[None, :]) ** p).sum())

        got, best = energy(z), energy(R[:, 1])
        c.check(got <= best * 1.01 + 1e-6, "p-laplace-not-minimal", lambda: f"{desc}: energy {got} but {best} is reachable")
    c.nontrivial((p, k, w is None, *sorted(kind.items())))


def ref_tsvm(d, s, seed, dt, eps=0.0):
    """Alternate hinge-loss SGD on labelled copies plus current guesses; unlabelled influence grows tenfold per round."""
    X, y, tr = np.asarray(d.X, np.float32).astype(dt), d.y, d.masks["train_mask"]
    un = np.flatnonzero(d.masks.get("unlabeled_mask", ~tr))
    lab = np.flatnonzero(tr)
    cls = np.unique(y[lab])
    t = np.where(y == cls[0], -1.0, 1.0)
    w = (0.01 * np.random.default_rng(seed).normal(size=X.shape[1])).astype(np.float32).astype(dt)
    b, rng = dt(0.0), np.random.default_rng(seed)

    def sgd(Z, u, C, w, b):
        for _ in range(s.epochs_per_iter):
            order = rng.permutation(len(Z))
            for i in range(0, len(Z), s.batch_size):
                q = order[i: i + s.batch_size]
                viol = q[u[q] * (Z[q] @ w + b) < 1 + eps]
                g, h = s.l2 * w, 0.0
                if len(viol):
                    g, h = g - C * (u[viol] @ Z[viol]) / len(viol), -C * u[viol].mean()
                w, b = (w - s.lr * g).astype(dt), dt(b - s.lr * h)
        return w, b

    w, b = sgd(X[lab], t[lab], s.C_l, w, b)
    C = 1e-3
    for _ in range(s.max_iter if len(un) else 0):
        f = X[un] @ w + b
        u = np.where(f >= eps, 1.0, -1.0)
        if s.balance and len(set(u)) == 1:
            order = np.argsort(np.abs(f))
            u[order[: len(un) // 2]], u[order[len(un) // 2:]] = -1.0, 1.0
        rep = max(1, round(s.C_l / max(C, 1e-6)))
        w, b = sgd(np.vstack([np.repeat(X[lab], rep, axis=0), X[un]]), np.concatenate([np.repeat(t[lab], rep), u]), max(C, 1e-6), w, b)
        C = min(s.C_u_max, C * 10.0)
    p = 1 / (1 + np.exp(-np.asarray(X @ w + b, float)))
    return np.stack([1 - p, p], axis=1)


@M.scenario(quick=160, thorough=2000)
def tsvm(c):
    n, k, y, m, ei, w, A, Y, kind = problem(c, binary=True)
    y = np.where(y < 0, 0, y)
    X = (c.rng.normal(size=(n, c.py.randint(1, 4))) + c.pick([0.0, 0.0, 3.0])).astype(np.float32)
    d = tgen.data(X, y, ei, w, m)
    if c.chance(0.4):
        d.masks["unlabeled_mask"] = ~m & (c.rng.random(n) < 0.6)
    spec = TSVMTransductiveSpec(max_iter=c.pick([0, 1, 2, 4, 5]), epochs_per_iter=c.pick([1, 2]), batch_size=c.pick([3, 8, 256]), lr=c.pick([0.1, 0.3]), C_l=c.pick([1.0, 0.02, 2.5e-3]), C_u_max=c.pick([1.0, 0.05]), l2=c.pick([1.0, 0.1, 0.0]),
                                balance=c.chance(0.7))
    seed = c.py.randrange(1000)
    refs = [ref_tsvm(d, spec, seed, np.float64), ref_tsvm(d, spec, seed, np.float32), ref_tsvm(d, spec, seed, np.float64, 1e-5), ref_tsvm(d, spec, seed, np.float64, -1e-5)]
    if any(np.abs(r - refs[0]).max() > 1e-4 for r in refs):
        c.count("skipped:rounding-sensitive")
        return
    F = np.asarray(get_method_class("tsvm")(spec).fit(d, device=None, seed=seed).predict_proba(d), float)
    close(c, F, refs[0], "tsvm-solution-wrong", f"tsvm n={n} {spec} unlabeled={d.masks.get('unlabeled_mask')}", tol=1e-3)
    c.nontrivial((spec.max_iter, spec.balance, spec.batch_size, spec.C_l, "unlabeled_mask" in d.masks))


def ref_mbo(n, A, y, m, Y, s, noise=None):
    W = A + A.T if s.symmetrize else A.copy()
    if s.zero_diagonal:
        np.fill_diagonal(W, 0.0)
    if noise is not None:
        W = W * noise
    d = W.sum(axis=1)
    ybar = Y[m].mean(axis=0)
    B = np.zeros_like(Y)
    B[m] = Y[m] - ybar
    k = Y.shape[1]
    b = {"uniform": np.full(k, 1.0 / k), "labeled": ybar}[s.b_strategy] if s.b is None else np.asarray(s.b, float) / np.sum(s.b)
    U = np.zeros_like(Y)
    inv = np.where(d > 0, 1.0 / np.where(d > 0, d, 1.0), 0.0)
    for _ in range(s.T):
        U = U + inv[:, None] * (B - (d[:, None] * U - W @ U))
    U = U * (b / ybar)[None, :]
    dt = 1.0 / d.max()

    def proj(V):
        out = np.zeros_like(V)
        out[np.arange(n), V.argmax(axis=1)] = 1.0
        return out

    for _ in range(s.Nouter):
        for _ in range(s.Ninner):
            U = U - dt * ((d[:, None] * U - W @ U) - s.mu * B)
        v = np.ones(k)
        for _ in range(s.n_volume_iters):
            v = np.clip(v + s.d_tau * (b - proj(U * v).mean(axis=0)), s.smin, s.smax)
        U = proj(U * v)
    return U


@M.scenario(quick=240, thorough=2500)
def mbo(c):
    n, k, y, m, ei, w, A, Y, kind = problem(c, connected=True)
    y = np.where(y < 0, 0, y)
    spec = PoissonMBOSpec(T=c.pick([0, 3, 40]), Ninner=c.pick([1, 8]), Nouter=c.pick([1, 3]), mu=c.pick([1.0, 0.3]), n_volume_iters=c.pick([0, 5, 30]), b_strategy=c.pick(["uniform", "labeled"]),
                          b=None if c.chance(0.7) else (c.rng.random(k) + 0.2), symmetrize=c.chance(0.8), zero_diagonal=c.chance(0.8))
    desc = f"mbo n={n} k={k} {spec} {kind}"
    F = np.asarray(through_method(c, "poisson_mbo", spec, n, ei, w, y, m) if c.chance(0.4) else poisson_mbo(n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=m, spec=spec).F)
    c.check(set(np.unique(F)) <= {0.0, 1.0} and np.all(F.sum(axis=1) == 1), "mbo-not-a-labelling", desc)
    R = ref_mbo(n, A, y, m, Y, spec)
    stable = all(np.array_equal(R, ref_mbo(n, A, y, m, Y, spec, noise=1 + e * c.rng.normal(size=A.shape))) for e in (1e-5, 1e-5, 1e-4, 1e-4, 1e-3, 1e-3))
    if not stable:
        c.count("mbo_tied_runs")
        return
    c.check(np.array_equal(F, R), "mbo-labelling-wrong", lambda: f"{desc}: got {F.argmax(1).tolist()} expected {R.argmax(1).tolist()}")
    c.nontrivial((spec.T, spec.Ninner, spec.Nouter, spec.b_strategy, spec.b is None, spec.symmetrize))
