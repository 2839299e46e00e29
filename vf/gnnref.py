"""Graph neural networks written out densely from their layer equations, trained by the documented full-batch rule.

Every model draws its initial parameters and its dropout masks from torch's generator in the documented layer order, so a
run under the same seed is comparable to the library's; all arithmetic is dense and can be done in float32 or float64.
"""
from __future__ import annotations

import math

import numpy as np
import torch

F = torch.nn.functional


def dense_A(d):
    """A[dst, src] summed over duplicate edges."""
    n = len(d.y)
    A = np.zeros((n, n))
    ei = d.graph.edge_index
    w = np.ones(ei.shape[1]) if d.graph.edge_weight is None else d.graph.edge_weight
    np.add.at(A, (ei[1], ei[0]), w)
    return A


def row_norm(A):
    return A / np.maximum(A.sum(1), 1e-12)[:, None]


def sym_norm(A):
    r = 1 / np.sqrt(np.maximum(A.sum(1), 1e-12))
    return r[:, None] * A * r[None, :]


class Net:
    """Parameters drawn in float32 in creation order, then kept in `dt`."""

    def __init__(self, dt):
        self.dt, self.params, self.training = dt, [], False

    def _keep(self, t):
        p = t.detach().to(self.dt).clone().requires_grad_(True)
        self.params.append(p)
        return p

    def linear(self, i, o, bias=True):
        m = torch.nn.Linear(i, o, bias=bias)
        W = self._keep(m.weight)
        b = self._keep(m.bias) if bias else None
        return lambda x: x @ W.T + (b if b is not None else 0.0)

    def drop(self, x, p):
        if not self.training:
            return x
        return x * F.dropout(torch.ones(x.shape, dtype=torch.float32), p=p, training=True).to(self.dt)


def t64(a, dt):
    return torch.as_tensor(np.asarray(a), dtype=dt)


def train(net, forward, y, tr, va, spec, seed, loss=None, val_better=None):
    """Adam on the training mask; keep the parameters of the best validation epoch."""
    torch.manual_seed(seed)
    opt = torch.optim.Adam(net.params, lr=spec.lr, weight_decay=spec.weight_decay)
    best, kept, bad = None, None, 0
    for _ in range(spec.max_epochs):
        net.training = True
        val = loss() if loss is not None else F.cross_entropy(forward()[tr], y[tr])
        opt.zero_grad()
        val.backward()
        opt.step()
        if va is None or not bool(va.any()):
            continue
        net.training = False
        with torch.no_grad():
            L = F.cross_entropy(forward()[va], y[va]).item()
        if best is None or L < best - 1e-9:
            best, kept, bad = L, [p.detach().clone() for p in net.params], 0
        else:
            bad += 1
            if bad >= spec.patience:
                break
    if kept is not None:
        with torch.no_grad():
            for p, q in zip(net.params, kept):
                p.copy_(q)
    net.training = False


def mlp(net, i, h, o, p):
    a, b = net.linear(i, h), net.linear(h, o)
    return lambda x: b(net.drop(torch.relu(a(net.drop(x, p))), p))


def common(d, dt):
    X = t64(np.asarray(d.X, np.float32), dt)
    y = torch.as_tensor(d.y, dtype=torch.long)
    tr = torch.as_tensor(d.masks["train_mask"])
    va = torch.as_tensor(d.masks["val_mask"]) if "val_mask" in d.masks else None
    return X, y, tr, va, int(d.y.max()) + 1


def looped(d, spec):
    A = dense_A(d)
    return A + np.eye(len(A)) if spec.add_self_loops else A


def gcn(net, d, spec, f, k, X, dt):
    A = t64(sym_norm(looped(d, spec)), dt)
    a, b = net.linear(f, spec.hidden_dim), net.linear(spec.hidden_dim, k)
    return lambda: A @ b(net.drop(torch.relu(A @ a(net.drop(X, spec.dropout))), spec.dropout))


def sgc(net, d, spec, f, k, X, dt):
    S = np.linalg.matrix_power(sym_norm(looped(d, spec)), spec.k)
    H = t64(S, dt) @ X
    a = net.linear(f, k)
    return lambda: a(H)


def graphsage(net, d, spec, f, k, X, dt):
    A = t64(row_norm(looped(d, spec)), dt)
    a, b = net.linear(2 * f, spec.hidden_dim), net.linear(2 * spec.hidden_dim, k)

    def forward():
        x = net.drop(X, spec.dropout)
        h = net.drop(torch.relu(a(torch.cat([x, A @ x], 1))), spec.dropout)
        return b(torch.cat([h, A @ h], 1))
    return forward


def appnp(net, d, spec, f, k, X, dt):
    P = row_norm(looped(d, spec))
    n = len(P)
    al = spec.alpha
    # closed form of the K power-iteration steps
    M = np.linalg.matrix_power((1 - al) * P, spec.k)
    for i in range(spec.k):
        M = M + al * np.linalg.matrix_power((1 - al) * P, i)
    M = t64(M if spec.k else np.eye(n), dt)
    g = mlp(net, f, spec.hidden_dim, k, spec.dropout)
    return lambda: M @ g(X)


def chebnet(net, d, spec, f, k, X, dt):
    L = -sym_norm(looped(d, spec))
    T = [np.eye(len(L)), L]
    while len(T) <= spec.k:
        T.append(2 * L @ T[-1] - T[-2])
    T = [t64(t, dt) for t in T[: spec.k + 1]]

    def conv(i, o):
        # the bias is created (as zeros) before or after the weights; it draws nothing
        ws = [net.linear(i, o, bias=False) for _ in range(spec.k + 1)]
        b = net._keep(torch.zeros(o))
        return lambda x: sum(w(t @ x) for w, t in zip(ws, T)) + b
    a, b = conv(f, spec.hidden_dim), conv(spec.hidden_dim, k)
    return lambda: b(net.drop(torch.relu(a(net.drop(X, spec.dropout))), spec.dropout))


def gcnii(net, d, spec, f, k, X, dt):
    A = t64(sym_norm(looped(d, spec)), dt)
    h = spec.hidden_dim
    inp = net.linear(f, h)
    lins = [net.linear(h, h) for _ in range(spec.num_layers)]
    out = net.linear(h, k)

    def forward():
        x0 = x = torch.relu(inp(net.drop(X, spec.dropout)))
        for i, lin in enumerate(lins, 1):
            x = (1 - spec.alpha) * (A @ x) + spec.alpha * x0
            be = math.log(spec.lam / i + 1)
            x = net.drop(torch.relu((1 - be) * x + be * lin(x)), spec.dropout)
        return out(x)
    return forward


def gat(net, d, spec, f, k, X, dt):
    n = len(d.y)
    ei = d.graph.edge_index
    if spec.add_self_loops:
        pairs = sorted({(int(t), int(s)) for s, t in ei.T} | {(i, i) for i in range(n)})
    else:
        pairs = [(int(t), int(s)) for s, t in ei.T]
    dst, src = (torch.tensor(v, dtype=torch.long) for v in zip(*pairs))

    def conv(i, o, heads, concat):
        m = torch.nn.Linear(i, heads * o, bias=False)
        asrc, adst = torch.empty(heads, o), torch.empty(heads, o)
        torch.nn.init.xavier_uniform_(m.weight)
        torch.nn.init.xavier_uniform_(asrc)
        torch.nn.init.xavier_uniform_(adst)
        W, u, v = net._keep(m.weight), net._keep(asrc), net._keep(adst)
        b = net._keep(torch.zeros(heads * o if concat else o))

        def run(x):
            h = (x @ W.T).view(n, heads, o)
            e = F.leaky_relu((h * u).sum(-1)[src] + (h * v).sum(-1)[dst], spec.negative_slope)
            alpha = torch.zeros_like(e)
            for i_ in range(n):
                at = dst == i_
                if bool(at.any()):
                    alpha = torch.where(at[:, None], torch.softmax(e.masked_fill(~at[:, None], -math.inf), 0), alpha)
            alpha = net.drop(alpha, spec.dropout)
            S = torch.zeros(n, len(src), dtype=dt)
            S[dst, torch.arange(len(src))] = 1
            z = torch.einsum("ne,eh,eho->nho", S, alpha, h[src])
            return (z.reshape(n, -1) if concat else z.mean(1)) + b
        return run
    a = conv(f, spec.head_dim, spec.heads, True)
    b = conv(spec.head_dim * spec.heads, k, 1, False)
    return lambda: b(net.drop(F.elu(a(net.drop(X, spec.dropout))), spec.dropout))


def sym_adj(d, spec):
    """Undirected adjacency without self-loops (heavier direction wins)."""
    n = len(d.y)
    A = dense_A(d).T
    A[np.arange(n), np.arange(n)] = 0
    return np.maximum(A, A.T) if spec.symmetrize else A


def n_gcn(net, d, spec, f, k, X, dt):
    A = sym_adj(d, spec) + (np.eye(len(d.y)) if spec.add_self_loops else 0)
    S = sym_norm(A)
    powers = [t64(np.linalg.matrix_power(S, i), dt) for i in range(spec.K)]
    dims = [f] + [spec.hidden_dim] * (spec.gcn_layers - 1) + [k]
    nets = [[net.linear(dims[i], dims[i + 1]) for i in range(len(dims) - 1)] for _ in range(spec.K * spec.r)]
    if spec.classifier == "fc":
        fc = net.linear(spec.K * spec.r * k, k)
    else:
        att = net._keep(torch.zeros(spec.K * spec.r))

    def forward():
        outs = []
        for j, lins in enumerate(nets):
            z = X
            for i, lin in enumerate(lins):
                z = lin(powers[j // spec.r] @ net.drop(z, spec.dropout))
                if i < len(lins) - 1:
                    z = torch.relu(z)
            outs.append(z)
        if spec.classifier == "fc":
            return fc(torch.cat(outs, 1))
        return sum(a * o for a, o in zip(torch.softmax(att, 0), outs))
    return forward


def coarsen(A, wt):
    """Structural-equivalence pairs first, then each free node (by degree) with its closest free neighbour."""
    n = len(A)
    nb = [tuple(int(j) for j in np.flatnonzero(A[i]) if j != i) for i in range(n)]
    groups, free = [], set(range(n))
    seen = []
    for i in range(n):
        if nb[i] not in seen:
            seen.append(nb[i])
    for key in seen:
        same = [i for i in range(n) if nb[i] == key]
        for a, b in zip(same[::2], same[1::2]):
            groups.append([a, b])
            free -= {a, b}
    for v in sorted(range(n), key=lambda i: (len(nb[i]), i)):
        if v not in free:
            continue
        cand = [u for u in nb[v] if u in free]
        free.discard(v)
        if not cand:
            groups.append([v])
            continue
        score = {u: A[v, u] / math.sqrt(float(wt[v]) * float(wt[u])) for u in cand}
        best = min(u for u in cand if score[u] == max(score.values()))
        groups.append([v, best])
        free.discard(best)
    M = np.zeros((n, len(groups)))
    for j, g in enumerate(groups):
        M[g, j] = 1
    return M


def h_gcn(net, d, spec, f, k, X, dt):
    L = (spec.num_layers - 1) // 2
    adj, wts, Ms = [sym_adj(d, spec).astype(np.float32)], [np.ones(len(d.y), int)], []
    for _ in range(L):
        M = coarsen(adj[-1], wts[-1])
        Ms.append(M)
        wts.append((M.T @ wts[-1]).round().astype(int))
        adj.append((M.T.astype(np.float32) @ adj[-1] @ M.astype(np.float32)))
    S = [t64(sym_norm(a.astype(float) + (np.eye(len(a)) if spec.add_self_loops else 0)), dt) for a in adj]
    Mt = [t64(M, dt) for M in Ms]
    emb = net._keep(torch.nn.Embedding(max(int(w.max()) for w in wts) + 1, spec.weight_embed_dim).weight)
    layers = []
    for li in range(2 * L):
        i = (f if li == 0 else spec.hidden_dim) + spec.weight_embed_dim
        logits = net._keep(torch.zeros(spec.channels))
        layers.append((logits, [net.linear(i, spec.hidden_dim, bias=False) for _ in range(spec.channels)]))
    out = net.linear(spec.hidden_dim, k, bias=False)

    def layer(li, H, lv):
        logits, lins = layers[li]
        x = torch.cat([H, emb[torch.as_tensor(wts[lv])]], 1)
        x = S[lv] @ net.drop(x, spec.dropout)
        return sum(w * torch.relu(l(x)) for w, l in zip(torch.softmax(logits, 0), lins))

    def forward():
        H, skip = X, []
        for i in range(L):
            G = layer(i, H, i)
            skip.append(G)
            H = Mt[i].T @ G
        for off, i in enumerate(reversed(range(L))):
            H = Mt[i] @ layer(L + off, H, i + 1) + skip[i]
        return torch.relu(out(S[0] @ net.drop(H, spec.dropout)))
    return forward


FULL = dict(gcn=gcn, sgc=sgc, graphsage=graphsage, appnp=appnp, chebnet=chebnet, gcnii=gcnii, gat=gat, n_gcn=n_gcn, h_gcn=h_gcn)


def grand_run(d, spec, seed, dt):
    X, y, tr, va, k = common(d, dt)
    net = Net(dt)
    torch.manual_seed(seed)
    g = mlp(net, X.shape[1], spec.hidden_dim, k, spec.mlp_dropout)
    P = t64(np.linalg.matrix_power(row_norm(looped(d, spec)), spec.prop_steps), dt)

    def loss():
        sup, probs = 0.0, []
        for _ in range(spec.num_samples):
            z = g(P @ net.drop(X, spec.dropnode))
            sup = sup + F.cross_entropy(z[tr], y[tr]) / spec.num_samples
            probs.append(torch.softmax(z, 1))
        p = torch.stack(probs).clamp_min(1e-12)
        bar = torch.stack(probs).mean(0).clamp_min(1e-12)
        return sup + spec.lambda_consistency * (p * (p.log() - bar.log())).sum(2).mean()
    train(net, lambda: g(P @ X), y, tr, va, spec, seed, loss=loss)
    with torch.no_grad():
        return torch.softmax(g(P @ X), 1).double().numpy()


def graphhop_run(d, spec, seed, dt):
    X, y, tr, va, k = common(d, dt)
    n = len(d.y)
    torch.manual_seed(seed)
    # hop distance over the undirected (or directed) graph
    A = dense_A(d) * 0
    ei = d.graph.edge_index
    A[ei[0], ei[1]] = 1  # out-neighbours
    if spec.symmetrize:
        A = np.maximum(A, A.T)
    np.fill_diagonal(A, 0)
    dist = np.full((n, n), 10**6)
    np.fill_diagonal(dist, 0)
    for s in range(n):
        q = [s]
        while q:
            u = q.pop(0)
            for v in np.flatnonzero(A[u]):
                if dist[s, v] > dist[s, u] + 1:
                    dist[s, v] = dist[s, u] + 1
                    q.append(int(v))
    hops = []
    for h in range(1, spec.hops + 1):
        N = (dist == h).astype(float)  # row i: nodes at distance h from i
        hops.append(t64(N / np.maximum(N.sum(1), 1)[:, None], dt))
    if va is not None and not bool(va.any()):
        va = None
    onehot = F.one_hot(y, k).to(dt)
    pse = ~tr

    def fit(step, Z, labels, prev):
        net = prev
        if net is None:
            net = Net(dt)
            net.f = net.linear(Z.shape[1], k)
        opt = torch.optim.Adam(net.params, lr=spec.lr, weight_decay=spec.weight_decay)
        last, bad, kept = math.inf, 0, None
        for _ in range(spec.max_epochs):
            lp = F.log_softmax(net.f(Z), 1)
            loss = -(labels[tr] * lp[tr]).sum() / max(int(tr.sum()), 1)
            if step:
                m = max(int(pse.sum()) * k, 1)
                loss = loss - spec.alpha * (labels[pse] * lp[pse]).sum() / m - spec.beta * (lp[pse].exp() * lp[pse]).sum() / m
            opt.zero_grad()
            loss.backward()
            opt.step()
            if va is None:
                continue
            with torch.no_grad():
                v = -(onehot[va] * F.log_softmax(net.f(Z[va]), 1)).sum()
            if v - last > 0 or last - v < spec.min_delta:
                bad += 1
            else:
                bad, kept = 0, [p.detach().clone() for p in net.params]
            if bad >= spec.patience:
                break
            last = float(v)
        if kept is not None:
            with torch.no_grad():
                for p, q in zip(net.params, kept):
                    p.copy_(q)
        return net

    def cat(H):
        hs = [H] + [P @ H for P in hops]
        return [torch.cat(hs[: m + 2], 1) for m in range(spec.hops)]
    Z = cat(X)
    net = fit(0, Z[-1], onehot, None)
    with torch.no_grad():
        H = torch.softmax(net.f(Z[-1]), 1)
        pl = torch.softmax(net.f(Z[-1]) / spec.temperature, 1)
        pl[tr] = onehot[tr]
    wt = spec.weight_temp or [1 / spec.hops] * spec.hops
    wp = spec.weight_pred or [1 / spec.hops] * spec.hops
    prev = [None] * spec.hops
    for step in range(1, spec.max_iter + 1):
        Z = cat(H)
        soft, temp = [], []
        for m in range(spec.hops):
            net = fit(step, Z[m], pl, prev[m] if step > 1 else None)
            prev[m] = net
            with torch.no_grad():
                soft.append(torch.softmax(net.f(Z[m]), 1))
                temp.append(torch.softmax(net.f(Z[m]) / spec.temperature, 1))
        pl = sum(a * b for a, b in zip(wt, temp))
        pl[tr] = onehot[tr]
        H = sum(a * b for a, b in zip(wp, soft))
    return H.double().numpy()


def walks_of(d, spec, seed):
    """Second-order random walks from every node that has neighbours, drawn from one generator in node order."""
    n = len(d.y)
    nb = [set() for _ in range(n)]
    for a, b in zip(*np.asarray(d.graph.edge_index).tolist()):
        if a != b:
            nb[a].add(b)
            if spec.undirected:
                nb[b].add(a)
    rng = np.random.default_rng(seed)
    out = []
    for s in range(n):
        for _ in range(spec.num_walks if nb[s] else 0):
            w = [s]
            while len(w) < spec.walk_length and nb[w[-1]]:
                here = sorted(nb[w[-1]])
                if len(w) == 1 or spec.p == spec.q == 1.0:
                    w.append(here[int(rng.integers(0, len(here)))])
                else:
                    back = w[-2]
                    pr = np.array([1 / spec.p if x == back else 1.0 if x in nb[back] else 1 / spec.q for x in here])
                    w.append(int(rng.choice(here, p=pr / pr.sum())))
            out.append(w)
    return nb, out


def planetoid_run(d, spec, seed, dt):
    """Skip-gram with negative samples over random walks, plus a linear classifier on the labelled nodes' embeddings."""
    n, k = len(d.y), int(d.y.max()) + 1
    torch.manual_seed(seed)
    nb, walks = walks_of(d, spec, seed)
    pairs = np.array([(w[i], w[j]) for w in walks for i in range(len(w)) for j in range(len(w)) if i != j and abs(i - j) <= spec.window_size])
    q = np.maximum([len(x) for x in nb], 1.0) ** 0.75
    q = q / q.sum()
    net = Net(dt)
    E, C = (net._keep(torch.nn.Embedding(n, spec.embedding_dim).weight) for _ in range(2))
    clf = net.linear(spec.embedding_dim, k)
    opt = torch.optim.Adam(net.params, lr=spec.lr, weight_decay=spec.weight_decay)
    rng = np.random.default_rng(seed)
    order = np.arange(len(pairs))
    y = torch.as_tensor(d.y, dtype=torch.long)
    tr = torch.as_tensor(np.flatnonzero(d.masks["train_mask"]))
    for _ in range(spec.epochs):
        rng.shuffle(order)
        for lo in range(0, len(order), spec.batch_size):
            part = pairs[order[lo : lo + spec.batch_size]]
            neg = rng.choice(n, size=(len(part), spec.num_negative), replace=True, p=q)
            v = E[part[:, 0]]
            loss = -(F.logsigmoid((v * C[part[:, 1]]).sum(1)) + F.logsigmoid(-(v[:, None] * C[neg]).sum(2)).sum(1)).mean()
            sel = tr[torch.randperm(len(tr))[: spec.sup_batch_size]] if len(tr) > spec.sup_batch_size else tr
            loss = loss + spec.lambda_sup * F.cross_entropy(clf(E[sel]), y[sel])
            opt.zero_grad()
            loss.backward()
            opt.step()
    with torch.no_grad():
        return torch.softmax(clf(E), 1).double().numpy()


class _GrafnRef(torch.nn.Module):
    def __init__(self, sizes, k):
        super().__init__()
        self.lin, self.bn, self.act = (torch.nn.ModuleList() for _ in range(3))
        for i, o in zip(sizes, sizes[1:]):
            self.lin.append(torch.nn.Linear(i, o))
            self.bn.append(torch.nn.BatchNorm1d(o))
            self.act.append(torch.nn.PReLU())
        self.clf = torch.nn.Linear(sizes[-1], k)

    def encode(self, x, A):
        for lin, bn, act in zip(self.lin, self.bn, self.act):
            x = act(bn(A @ lin(x)))
        return x


def grafn_run(d, spec, seed, dt):
    """Two dropped views, non-parametric soft labels from the labelled nodes, node-wise agreement, best validation accuracy."""
    X, y, tr, va, k = common(d, dt)
    n = len(d.y)
    torch.manual_seed(seed)
    net = _GrafnRef([X.shape[1], *spec.hidden_dims], k).to(dt)
    opt = torch.optim.Adam(net.parameters(), lr=spec.lr, weight_decay=spec.weight_decay)
    rng = np.random.default_rng(seed)
    ei = np.asarray(d.graph.edge_index)
    w = np.ones(ei.shape[1]) if d.graph.edge_weight is None else np.asarray(d.graph.edge_weight, float)

    def adjacency(keep):
        A = np.zeros((n, n))
        np.add.at(A, (ei[1][keep], ei[0][keep]), w[keep])
        return t64(sym_norm(A + np.eye(n)), dt)

    def view(drop_edge, drop_feat):
        r = np.random.default_rng(rng.integers(0, 2**32 - 1))
        col = r.random(X.shape[1]) < drop_feat if drop_feat > 0 else np.zeros(X.shape[1], bool)
        keep = r.random(ei.shape[1]) >= drop_edge if drop_edge > 0 else np.ones(ei.shape[1], bool)
        return X * t64(~col, dt), adjacency(keep if keep.any() else ~keep)

    def soft(q, s, lab):
        return torch.softmax(F.normalize(q, dim=1) @ F.normalize(s, dim=1).T / spec.tau, 1) @ lab
    full = adjacency(np.ones(ei.shape[1], bool))
    onehot = F.one_hot(y, k).to(dt)
    best, kept, bad = None, None, 0
    for _ in range(spec.max_epochs):
        net.train()
        groups = [np.flatnonzero(tr.numpy() & (d.y == c)) for c in range(k)]
        m = min(map(len, groups))
        sup = np.concatenate([rng.choice(g, size=m, replace=False) for g in groups])
        lab = onehot[sup]
        strong = view(spec.drop_edge_strong, spec.drop_feat_strong)
        weak = view(spec.drop_edge_weak, spec.drop_feat_weak)
        a, p = net.encode(*strong), net.encode(*weak)
        with torch.no_grad():
            t = soft(p, p[sup], lab)
            use = (t.max(1).values > spec.thres) | tr
            t = torch.where(t < 1e-4, torch.zeros_like(t), t)
            t[tr] = onehot[tr]
        ce = -(torch.xlogy(t[use], soft(a, a[sup], lab)[use])).sum(1).mean()
        la, lp = net.clf(net.encode(*strong)), net.clf(net.encode(*weak))
        loss = (F.cross_entropy(la[tr], y[tr]) + F.cross_entropy(lp[tr], y[tr])) / 2 + spec.lam_consistency * ce
        loss = loss + spec.lam_nodewise * (2 - 2 * F.cosine_similarity(a, p, dim=-1).mean())
        opt.zero_grad()
        loss.backward()
        opt.step()
        if va is None or not bool(va.any()):
            continue
        net.eval()
        with torch.no_grad():
            acc = (net.clf(net.encode(X, full)).argmax(1)[va] == y[va]).double().mean().item()
        if best is None or acc > best:
            best, kept, bad = acc, {a_: b_.clone() for a_, b_ in net.state_dict().items()}, 0
        else:
            bad += 1
            if bad >= spec.patience:
                break
    if kept is not None:
        net.load_state_dict(kept)
    net.eval()
    with torch.no_grad():
        return torch.softmax(net.clf(net.encode(X, full)), 1).double().numpy()


def run(mid, d, spec, seed, dt):
    if mid == "planetoid":
        return planetoid_run(d, spec, seed, dt)
    if mid == "grafn":
        return grafn_run(d, spec, seed, dt)
    if mid == "grand":
        return grand_run(d, spec, seed, dt)
    if mid == "graphhop":
        return graphhop_run(d, spec, seed, dt)
    X, y, tr, va, k = common(d, dt)
    net = Net(dt)
    torch.manual_seed(seed)
    fwd = FULL[mid](net, d, spec, X.shape[1], k, X, dt)
    train(net, fwd, y, tr, va, spec, seed)
    with torch.no_grad():
        return torch.softmax(fwd(), 1).double().numpy()


METHODS = [*FULL, "grand", "graphhop", "planetoid", "grafn"]
