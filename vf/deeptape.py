"""Observation of deep semi-supervised training: every forward pass and every optimiser step, by row identity.

Rows carry a tag in feature column 0 which the monitored network ignores, so a trace tells exactly which example, in
which view, reached the model at which step, with which parameters, and which gradient the optimiser then applied.
"""

import copy

import torch

KINDS = {"L": 0, "W": 1000, "S": 2000, "S2": 3000, "LS": 4000, "U": 5000}


class Net(torch.nn.Module):
    def __init__(self, d, h, k, *, out="tensor", seed=0, scale=1.0, dtype=torch.float64):
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        self.a = torch.nn.Linear(d, h, dtype=dtype)
        self.b = torch.nn.Linear(h, k, dtype=dtype)
        with torch.no_grad():
            for p in self.parameters():
                p.copy_(torch.randn(p.shape, generator=g, dtype=torch.float64).to(dtype) * (scale if p.shape[0] == k else 0.8))
        self.out = out

    def forward(self, x):
        z = mixed(x)[..., 1:]
        f = torch.tanh(self.a(z))
        y = self.b(f)
        return {"tensor": y, "dict": {"logits": y, "feat": f}, "tuple": (y, f)}[self.out]


def mixed(x):
    """Node features plus the weighted sum over incoming edges; plain tensors pass through."""
    if not isinstance(x, dict):
        return x
    z, ei, w = x["x"], x["edge_index"], x.get("edge_weight")
    msg = z[ei[0]] if w is None else z[ei[0]] * w[:, None].to(z.dtype)
    return z.index_add(0, ei[1], msg)


def feats(P, x):
    return torch.tanh(mixed(x)[..., 1:] @ P["a.weight"].T + P["a.bias"])


def head(P, f):
    return f @ P["b.weight"].T + P["b.bias"]


def logits(P, x):
    return head(P, feats(P, x))


def induced(g, ids):
    """Subgraph on the listed nodes, in that order, with its own edge weights."""
    pos = {int(v): i for i, v in enumerate(ids)}
    ei, w = g["edge_index"], g.get("edge_weight")
    keep = [j for j in range(ei.shape[1]) if int(ei[0, j]) in pos and int(ei[1, j]) in pos]
    out = {"x": g["x"][torch.as_tensor(list(ids), dtype=torch.long)]}
    out["edge_index"] = torch.tensor([[pos[int(ei[r, j])] for j in keep] for r in (0, 1)], dtype=torch.long).reshape(2, len(keep))
    if w is not None:
        out["edge_weight"] = w[keep]
    return out


class Fwd:
    def __init__(self, m, x):
        self.m, self.training, self.grad = m, m.training, torch.is_grad_enabled()
        self.x = {k: (v.detach().clone() if isinstance(v, torch.Tensor) else v) for k, v in x.items()} if isinstance(x, dict) else x.detach().clone()
        self.P = {n: p.detach().clone() for n, p in m.named_parameters()}

    @property
    def rows(self):
        return self.x["x"] if isinstance(self.x, dict) else self.x


class Step:
    def __init__(self, tag, names, params):
        self.tag = tag
        self.pre = {n: p.detach().clone() for n, p in zip(names, params)}
        self.grads = {n: None if p.grad is None else p.grad.detach().clone() for n, p in zip(names, params)}
        self.post, self.fwd = None, []


class Tape:
    def __init__(self):
        self.ev = []

    def watch(self, model):
        ev = self.ev

        def hook(m, args):
            ev.append(Fwd(m, args[0]))

        model.register_forward_pre_hook(hook)
        return model

    def optimiser(self, model, tag="m", lr=0.1):
        names = [n for n, _ in model.named_parameters()]
        ev = self.ev

        class Rec(torch.optim.SGD):
            def step(self, closure=None):
                ps = self.param_groups[0]["params"]
                st = Step(tag, names, ps)
                r = super().step(closure)
                st.post = {n: p.detach().clone() for n, p in zip(names, ps)}
                ev.append(st)
                return r

        return Rec(list(model.parameters()), lr=lr)

    def steps(self):
        out, cur = [], []
        for e in self.ev:
            if isinstance(e, Fwd):
                cur.append(e)
            else:
                e.fwd, cur = cur, []
                out.append(e)
        return out


def ids_of(fwds, kind):
    """Row numbers of one kind among the forwarded rows, first-seen order."""
    base, out = KINDS[kind], []
    for f in fwds:
        for t in f.rows[..., 0].flatten().tolist():
            if base <= t < base + 1000 and t == int(t) and int(t) - base not in out:
                out.append(int(t) - base)
    return out


def clone_bundle_model(m):
    return copy.deepcopy(m)


def union(graphs):
    """Disjoint union; plain tensors are concatenated."""
    if not isinstance(graphs[0], dict):
        return torch.cat(graphs)
    off, ei, w = 0, [], []
    weighted = any(g.get("edge_weight") is not None for g in graphs)
    for g in graphs:
        ei.append(g["edge_index"] + off)
        off += len(g["x"])
        if weighted:
            ew = g.get("edge_weight")
            w.append(ew if ew is not None else torch.ones(g["edge_index"].shape[1], dtype=g["x"].dtype))
    out = {"x": torch.cat([g["x"] for g in graphs]), "edge_index": torch.cat(ei, 1)}
    if weighted:
        out["edge_weight"] = torch.cat(w)
    return out


def with_x(x, rows):
    return {**x, "x": rows} if isinstance(x, dict) else rows
