"""Transductive workloads: node datasets and dense float64 reference solvers written from the method definitions."""
from __future__ import annotations

from types import SimpleNamespace

import numpy as np


def edges(c, n, *, connected=True, symmetric=True, loops=False, dups=False, extra=None):
    """Edge list over n nodes; connected through a random tree, then shuffled."""
    pairs = []
    if connected and n > 1:
        order = c.rng.permutation(n)
        for i in range(1, n):
            pairs.append((int(order[c.rng.integers(0, i)]), int(order[i])))
    for _ in range(c.py.randint(0, 2 * n) if extra is None else extra):
        a, b = (int(v) for v in c.rng.integers(0, n, 2))
        if a != b:
            pairs.append((a, b))
    if not dups:
        pairs = list({tuple(sorted(p)) if symmetric else p for p in pairs})
    if loops:
        pairs += [(int(a), int(a)) for a in c.rng.integers(0, n, c.py.randint(1, 3))]
    ei = np.array(pairs, dtype=np.int64).T.reshape(2, -1)
    w = (c.rng.random(ei.shape[1]) * c.pick([1.0, 1.0, 5.0]) + 0.05).astype(np.float32)
    if symmetric and c.chance(0.15):
        w = np.exp(2.5 * c.rng.normal(size=ei.shape[1])).astype(np.float32)  # spread over orders of magnitude
    w = w * np.float32(c.pick([1.0] * 6 + [1e-4, 40.0]))  # the unit of the weights
    if symmetric:
        nl = ei[0] != ei[1]
        ei, w = np.concatenate([ei, ei[::-1, nl]], axis=1), np.concatenate([w, w[nl]])
    p = c.rng.permutation(ei.shape[1])
    ei, w = np.ascontiguousarray(ei[:, p]), w[p]
    return ei, (None if c.chance(0.3) else w)


def labels(c, n, k, *, labeled=None):
    """y over k classes plus a train mask holding at least one node per class (and one hidden node)."""
    y = c.rng.integers(0, k, n)
    first = c.rng.permutation(n)[:k]
    y[first] = np.arange(k)
    m = np.zeros(n, bool)
    m[first] = True
    rest = np.flatnonzero(~m)
    extra = c.py.randint(0, max(0, len(rest) - 1)) if labeled is None else labeled
    m[c.rng.permutation(rest)[: min(extra, c.py.randint(0, 6))]] = True
    return y.astype(np.int64), m


def data(X, y, ei, w, train, **masks):
    return SimpleNamespace(X=X, y=y, graph=SimpleNamespace(edge_index=ei, edge_weight=w), masks={"train_mask": train, **masks}, meta={})


def copy_data(d):
    g = d.graph
    return SimpleNamespace(X=d.X.copy(), y=d.y.copy(), graph=SimpleNamespace(edge_index=g.edge_index.copy(), edge_weight=None if g.edge_weight is None else g.edge_weight.copy()),
                           masks={k: v.copy() for k, v in d.masks.items()}, meta=dict(d.meta))


def permuted(d, p):
    """The same dataset with node i renamed inv[i]; row j of the new arrays is old node p[j]."""
    inv = np.empty_like(p)
    inv[p] = np.arange(len(p))
    g = d.graph
    return SimpleNamespace(X=d.X[p], y=d.y[p], graph=SimpleNamespace(edge_index=inv[g.edge_index], edge_weight=g.edge_weight), masks={k: v[p] for k, v in d.masks.items()}, meta={})


def dense(n, ei, w):
    A = np.zeros((n, n))
    np.add.at(A, (ei[1], ei[0]), np.ones(ei.shape[1]) if w is None else np.asarray(w, float))
    return A


def onehot(y, m, k):
    Y = np.zeros((len(y), k))
    Y[np.flatnonzero(m), y[m]] = 1.0
    return Y


def norm(A, mode):
    d = A.sum(axis=1)
    d = np.where(d > 0, d, 1.0)
    return A / d[:, None] if mode == "rw" else A / np.sqrt(d[:, None] * d[None, :])


def rownorm(F):
    s = F.sum(axis=1, keepdims=True)
    return F / np.where(s > 0, s, 1.0)


def ref_lp(A, Y, m, *, mode, max_iter, tol, normalize):
    P, F = norm(A, mode), Y.copy()
    for _ in range(max_iter):
        G = P @ F
        G[m] = Y[m]
        G = rownorm(G) if normalize else G
        r, F = np.max(np.abs(G - F)), G
        if r <= tol:
            break
    return F


def ref_ls(A, Y, *, alpha, mode, max_iter, tol, normalize):
    S, F = norm(A, mode), Y.copy()
    for _ in range(max_iter):
        G = alpha * (S @ F) + (1 - alpha) * Y
        G = rownorm(G) if normalize else G
        r, F = np.max(np.abs(G - F)), G
        if r <= tol:
            break
    return F


def ref_laplace(A, Y, m):
    L = np.diag(A.sum(axis=1)) - A
    u = ~m
    F = Y.copy()
    if u.any():
        F[u] = np.linalg.solve(L[np.ix_(u, u)], A[np.ix_(u, m)] @ Y[m])
    return F


def sym0(A):
    W = 0.5 * (A + A.T)
    np.fill_diagonal(W, 0.0)
    return W


def ref_lrw(A, y, m, alpha):
    W = sym0(A)
    b = np.where(m, np.where(y == 1, 1.0, -1.0), 0.0)
    return np.linalg.solve(np.eye(len(y)) - alpha * norm(W, "sym"), b)


def ref_dlp(A, Y, m, *, k, alpha, lam, iters):
    W = sym0(A)
    P0 = norm(W, "rw")
    n = len(Y)
    if k >= n:
        P = P0.copy()
    else:
        P = np.zeros_like(P0)
        for i in range(n):
            row = P0[i].copy()
            row[i] = -1
            top = np.argsort(-row, kind="stable")[:k]
            P[i, top] = P0[i, top] / P0[i, top].sum()
    Pt, Yt = P0.copy(), Y.copy()
    for _ in range(iters):
        Yn = Pt @ Yt
        Yn[m] = Y[m]
        Pt = P @ (Pt + alpha * (Yt @ Yt.T)) @ P.T + lam * np.eye(n)
        Yt = Yn
    return Yt


def knn_tied(A, k):
    """True if the k-th and (k+1)-th largest off-diagonal transition of some row (nearly) coincide."""
    P0 = norm(sym0(A), "rw")
    n = len(P0)
    if k >= n:
        return False
    for i in range(n):
        v = np.sort(np.delete(P0[i], i))[::-1]
        if k < len(v) and v[k - 1] - v[k] <= 1e-5 * max(v[0], 1e-9):
            return True
    return False


def ref_poisson(A, Y, m, *, kind, eps, center):
    n = len(Y)
    B = np.zeros_like(Y)
    for j in range(Y.shape[1]):
        if center:
            B[m, j] = Y[m, j] - Y[m, j].mean()
        else:
            B[:, j] = Y[:, j] - Y[:, j].mean()
    M = np.eye(n) - norm(A, kind) + eps * np.eye(n) + np.full((n, n), 1.0 / n)
    return np.linalg.solve(M, B), M, B


def ref_plaplace(A, Y, m, *, p, iters=50, tol=1e-6, symmetrize=True):
    W = A + A.T if symmetrize else A.copy()
    np.fill_diagonal(W, 0.0)
    u = ~m
    Wuu, Wul, G = W[np.ix_(u, u)], W[np.ix_(u, m)], Y[m]
    out = np.zeros((int(u.sum()), Y.shape[1]))
    for c in range(Y.shape[1]):
        g = G[:, c]

        def solve(a, b):
            return np.linalg.solve(np.diag(a.sum(1) + b.sum(1) + 1e-12) - a, b @ g)

        x = solve(Wuu, Wul)
        if p > 2:
            for _ in range(iters):
                a = Wuu * np.abs(x[:, None] - x[None, :]) ** (p - 2)
                b = Wul * np.abs(x[:, None] - g[None, :]) ** (p - 2)
                xn = (p - 2) / (p - 1) * x + solve(a, b) / (p - 1)
                r, x = np.max(np.abs(xn - x)), xn
                if r <= tol:
                    break
        out[:, c] = x
    return out


def softmax(Z):
    e = np.exp(Z - Z.max(axis=1, keepdims=True))
    return e / e.sum(axis=1, keepdims=True)


def cut_value(A_src_dst, side):
    """Total capacity of edges leaving the source side."""
    return A_src_dst[np.ix_(side, ~side)].sum()


def best_cut(C, y, m):
    u = np.flatnonzero(~m)
    best = None
    for bits in range(1 << len(u)):
        side = np.zeros(len(y), bool)
        side[m & (y == 1)] = True
        side[u[[b for b in range(len(u)) if bits >> b & 1]]] = True
        v = cut_value(C, side)
        best = v if best is None else min(best, v)
    return best
