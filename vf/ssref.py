"""Independent models of the classic self-labelling loops over the scripted classifier.

Every function returns the training set(s), as lists of (row id, label), the method must end with.
"""

from __future__ import annotations

import math
from statistics import NormalDist

import numpy as np

from vf import scripted


class Ambiguous(Exception):
    """Equal scores at a cut: the rule leaves a choice."""


def tied(ordered, k):
    return k is not None and 0 < k < len(ordered) and abs(float(ordered[k - 1]) - float(ordered[k])) < 1e-6


class Model:
    def __init__(self, seed, kw):
        self.seed, self.kw = seed, kw

    def fit(self, train):
        self.train = list(train)
        self.classes = sorted({v for _, v in train})
        self.fp = scripted.fingerprint([i for i, _ in train], [v for _, v in train])
        return self

    def scores(self, rows):
        """rows: list of (id, hint)."""
        return scripted.scores(self.seed, self.fp, self.classes, [r[0] for r in rows], [r[1] for r in rows], **self.kw)

    def predict(self, rows):
        return [self.classes[j] for j in self.scores(rows).argmax(axis=1)] if rows else []


def pseudo_label(L, U, seed, kw, *, max_iter, threshold, max_new, min_new):
    m, train, pool = Model(seed, kw), list(L), list(U)
    for _ in range(max_iter):
        if not pool:
            break
        m.fit(train)
        s = m.scores(pool)
        top = s.max(axis=1)
        sel = [r for r in range(len(pool)) if top[r] >= threshold]
        if max_new is not None:
            sel = sorted(sel, key=lambda r: -top[r])
            if tied(top[sel], max_new):
                raise Ambiguous
            sel = sel[:max_new]
        if len(sel) < min_new:
            break
        lab = m.predict(pool)
        train += [(pool[r][0], lab[r]) for r in sel]
        pool = [p for r, p in enumerate(pool) if r not in set(sel)]
    return train


def self_training(L, U, seed, kw, *, max_iter, threshold, max_new, min_new, gu=None, gl=None, gcount=2, gfrac=1.0, gconf=None):
    """gu, gl: group of each unlabelled / labelled row id (None: no propagation)."""
    m, train, pool = Model(seed, kw), list(L), list(U)
    L0 = {i for i, _ in L}
    for _ in range(max_iter):
        if not pool:
            break
        m.fit(train)
        s = m.scores(pool)
        top, lab = s.max(axis=1), m.predict(pool)
        cand = {r: (lab[r], float(top[r])) for r in range(len(pool)) if threshold is None or top[r] >= threshold}
        direct = dict(cand)
        if gu is not None:
            need = gconf if gconf is not None else threshold if threshold is not None else -math.inf
            for g in sorted({gu[p[0]] for p in pool}):
                members = [r for r, p in enumerate(pool) if gu[p[0]] == g]
                votes = [(v, 1.0) for i, v in L if gl is not None and gl[i] == g and i in L0]
                votes += [direct[r] for r in members if r in direct]
                if len(votes) < gcount:
                    continue
                tally = {}
                for v, _ in votes:
                    tally[v] = tally.get(v, 0) + 1
                best = max(sorted(tally), key=lambda v: tally[v])
                if tally[best] / len(votes) < gfrac:
                    continue
                conf = float(np.mean([c for v, c in votes if v == best]))
                if conf < need:
                    continue
                for r in members:
                    cand.setdefault(r, (best, conf))
        order = sorted(cand, key=lambda r: -cand[r][1])
        if max_new is not None:
            # equal confidences at the cut (one group's value shared by its members) leave a choice
            if tied([cand[r][1] for r in order], max_new):
                raise Ambiguous
            order = order[:max_new]
        if len(order) < min_new:
            break
        train += [(pool[r][0], cand[r][0]) for r in order]
        pool = [p for r, p in enumerate(pool) if r not in set(order)]
    return train


def co_training(L1, L2, U1, U2, seed, kw, *, max_iter, k, threshold):
    m1, m2 = Model(seed, kw), Model(seed, kw)
    T1, T2, p1, p2 = list(L1), list(L2), list(U1), list(U2)

    def top(m, rows):
        s = m.scores(rows)
        out = []
        for j in range(len(m.classes)):
            c = [r for r in range(len(rows)) if s[r].argmax() == j and (threshold is None or s[r, j] >= threshold)]
            c = sorted(c, key=lambda r: -s[r, j])
            if tied(s[c, j], k):
                raise Ambiguous
            out += c[:k]
        return sorted(out)

    for _ in range(max_iter):
        if not p1:
            break
        m1.fit(T1), m2.fit(T2)
        a, b = top(m1, p1), top(m2, p2)
        if not a and not b:
            break
        l1, l2 = m1.predict(p1), m2.predict(p2)
        T2 += [(p2[r][0], l1[r]) for r in a]
        T1 += [(p1[r][0], l2[r]) for r in b]
        gone = set(a) | set(b)
        p1 = [p for r, p in enumerate(p1) if r not in gone]
        p2 = [p for r, p in enumerate(p2) if r not in gone]
    return T1, T2


def tri_training(L, U, boots, seed, kw, *, max_iter, threshold, max_new):
    ms = [Model(seed + i, kw) for i in range(3)]
    added = [dict() for _ in range(3)]

    def sets():
        return [[L[b] for b in boots[i]] + [(U[r][0], v) for r, v in added[i].items()] for i in range(3)]

    for _ in range(max_iter):
        for m, t in zip(ms, sets()):
            m.fit(t)
        S = [m.scores(U) for m in ms]
        P = [[m.classes[j] for j in s.argmax(axis=1)] for m, s in zip(ms, S)]
        new = 0
        for i in range(3):
            j, k = (x for x in range(3) if x != i)
            pick = [r for r in range(len(U)) if P[j][r] == P[k][r] and r not in added[i]]
            if threshold is not None:
                pick = [r for r in pick if S[j][r].max() >= threshold and S[k][r].max() >= threshold]
            if max_new is not None:
                both = {r: float(S[j][r].max()) + float(S[k][r].max()) for r in pick}
                pick = sorted(pick, key=lambda r: -both[r])
                if tied([both[r] for r in pick], max_new):
                    raise Ambiguous
                pick = pick[:max_new]
            for r in pick:
                added[i][r] = P[j][r]
            new += len(pick)
        if not new:
            break
    return sets()


def interval(correct, n, level):
    p = correct / n
    z = NormalDist().inv_cdf(0.5 + level / 2)
    e = z * math.sqrt(p * (1 - p) / n)
    return max(0.0, p - e), min(1.0, p + e)


def democratic(L, Lrows, U, seeds, kws, *, max_iter, level, hints):
    """hints: id -> leaning label. Returns (training sets, weights)."""
    ms = [Model(s, kw) for s, kw in zip(seeds, kws)]
    T = [list(L) for _ in ms]
    e = [0.0] * len(ms)
    added = [set() for _ in ms]

    def weights():
        out = []
        for m in ms:
            pr = m.predict(Lrows)
            lo, hi = interval(sum(a == v for a, (_, v) in zip(pr, L)), len(L), level)
            out.append((lo + hi) / 2)
        return out

    for _ in range(max_iter):
        for m, t in zip(ms, T):
            m.fit(t)
        w = weights()
        P = [m.predict(U) for m in ms]
        major = []
        for r in range(len(U)):
            tally = {}
            for i in range(len(ms)):
                tally[P[i][r]] = tally.get(P[i][r], 0.0) + w[i]
            best = sorted(tally, key=lambda v: -tally[v])
            second = tally[best[1]] if len(best) > 1 else 0.0
            if abs(tally[best[0]] - second) < 1e-6:
                if tally[best[0]] > 0 and len(best) > 1:
                    raise Ambiguous  # up to rounding
                major.append(None)
            else:
                major.append(best[0])
        low = []
        for m, t in zip(ms, T):
            pr = m.predict([(i, hints[i]) for i, _ in t])
            low.append(interval(sum(a == v for a, (_, v) in zip(pr, t)), len(t), level)[0])
        avg = min(max(float(np.mean(low)), 0.0), 1.0)
        changed = False
        for i in range(len(ms)):
            cand = [r for r in range(len(U)) if major[r] is not None and P[i][r] != major[r] and r not in added[i]]
            if not cand:
                continue
            n = len(T[i])
            q = n * (1 - 2 * e[i] / n) ** 2
            d = (1 - avg) * len(cand)
            n2 = n + len(cand)
            q2 = n2 * (1 - 2 * (e[i] + d) / n2) ** 2
            if abs(q2 - q) < 1e-9:
                raise Ambiguous
            if q2 > q:
                T[i] += [(U[r][0], major[r]) for r in cand]
                added[i] |= set(cand)
                e[i] += d
                changed = True
        if not changed:
            break
    for m, t in zip(ms, T):
        m.fit(t)
    return T, weights()


def s4vm(L, Lrows, U, seed, kw, *, k, rate):
    base = Model(seed, kw).fit(L)
    a, b = base.classes
    s, pred = base.scores(U), base.predict(U)
    conf = s.max(axis=1)

    def acc(m):
        return sum(p == v for p, (_, v) in zip(m.predict(Lrows), L)) / len(L)

    best, gain, start = base, 0.0, acc(base)
    for i in range(k):
        n = int(round(min(rate * (i + 1), 0.5) * len(U)))
        lab = list(pred)
        order = sorted(range(len(U)), key=lambda r: conf[r])
        if tied(conf[order], n):
            raise Ambiguous
        for r in order[:n]:
            lab[r] = b if lab[r] == a else a
        m = Model(seed + i + 1, kw).fit(L + [(u[0], v) for u, v in zip(U, lab)])
        g = acc(m) - start
        if g > gain + 1e-9:
            best, gain = m, g
    return best.train


def setred(L, U, points, seed, kw, *, max_iter, pool_size, max_new, min_new, threshold, theta, graph, knn, weight, eps=1e-12):
    """points: id -> coordinates (integers, so distances are exact)."""
    rng = np.random.default_rng(seed)
    m, train, pool = Model(seed, kw), list(L), list(U)
    z = NormalDist().inv_cdf(theta)
    for _ in range(max_iter):
        if not pool:
            break
        m.fit(train)
        size = min(pool_size if pool_size is not None else len(pool), len(pool))
        if size <= 0:
            break
        where = rng.choice(len(pool), size=size, replace=False) if size < len(pool) else np.arange(len(pool))
        cand = [pool[i] for i in where]
        s, lab = m.scores(cand), m.predict(cand)
        top = s.max(axis=1)
        classes = sorted({v for _, v in train})
        count = [sum(v == k for _, v in train) for k in classes]
        total = min(size, max_new) if max_new is not None else size
        share = [x / sum(count) * total for x in count]
        quota = [int(math.floor(x)) for x in share]
        left = total - sum(quota)
        frac = sorted(((share[j] - quota[j]), j) for j in range(len(classes)))[::-1]
        if 0 < left < len(frac) and abs(frac[left - 1][0] - frac[left][0]) < 1e-9:
            raise Ambiguous
        for _, j in frac[:left]:
            quota[j] += 1
        sel = []
        for k, q in zip(classes, quota):
            c = [r for r in range(len(cand)) if lab[r] == k and (threshold is None or top[r] >= threshold)]
            c = sorted(c, key=lambda r: -top[r])
            if tied(top[c], q):
                raise Ambiguous
            sel += c[:q]
        if not sel:
            break
        sel = sorted(sel)
        nodes = train + [(cand[r][0], lab[r]) for r in sel]
        C = np.array([points[i] for i, _ in nodes], dtype=np.int64)
        D2 = ((C[:, None, :] - C[None]) ** 2).sum(axis=2)
        n = len(nodes)
        adj = np.zeros((n, n), bool)
        if graph == "rng":
            for i in range(n):
                for j in range(i + 1, n):
                    adj[i, j] = adj[j, i] = not np.any((D2[i] < D2[i, j]) & (D2[j] < D2[i, j]))
        else:
            kk = max(1, min(knn, n - 1))
            for i in range(n):
                o = sorted((x for x in range(n) if x != i), key=lambda x: D2[i, x])
                if kk < len(o) and D2[i, o[kk - 1]] == D2[i, o[kk]]:
                    raise Ambiguous
                for x in o[:kk]:
                    adj[i, x] = adj[x, i] = True
        keep = []
        for pos, r in enumerate(sel):
            i = len(train) + pos
            nb = np.where(adj[i])[0]
            if not len(nb):
                keep.append(r)
                continue
            d = np.sqrt(D2[i, nb])
            w = {"uniform": np.ones(len(nb)), "distance": d, "inverse_distance": 1 / (d + eps)}[weight]
            cut = sum(w[x] for x in range(len(nb)) if nodes[nb[x]][1] != nodes[i][1])
            p = count[classes.index(nodes[i][1])] / sum(count)
            mu, var = (1 - p) * w.sum(), p * (1 - p) * (w**2).sum()
            lim = mu + z * math.sqrt(var) if var > 0 else mu
            if abs(cut - lim) < 1e-4 * max(1.0, abs(lim)):
                raise Ambiguous
            if cut <= lim:
                keep.append(r)
        if len(keep) < min_new:
            break
        train += [(cand[r][0], lab[r]) for r in keep]
        gone = {int(where[r]) for r in keep}
        pool = [p for i, p in enumerate(pool) if i not in gone]
    return train
