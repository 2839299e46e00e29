"""T04: graph neural methods compute their layer equations and follow the documented training and selection rule."""
from dataclasses import replace

import numpy as np

from checks.T02 import dataset
from vf import gnnref, tmeth
from vf.core import Module

M = Module(
    "T04",
    rule="Each GNN is fitted and compared, probability by probability, with a dense float64 implementation of its layer equations trained by the same rule (Adam on the training mask, best "
    "validation epoch kept, patience) under the same seed. Non-trivial: distinct (method, validation/early stop, option set).",
    preload=["torch", "modssc.transductive.registry"],
)

OPTIONS = {
    "gcn": dict(hidden_dim=[1, 4, 7], dropout=[0.0, 0.5], add_self_loops=[True, False]),
    "sgc": dict(k=[0, 1, 2, 5], add_self_loops=[True, False], lr=[0.1, 0.02]),
    "graphsage": dict(hidden_dim=[3, 4], dropout=[0.0, 0.5], add_self_loops=[True, False]),
    "appnp": dict(hidden_dim=[4], dropout=[0.0, 0.5], k=[0, 1, 3, 10], alpha=[0.1, 0.5, 1.0], add_self_loops=[True, False]),
    "chebnet": dict(hidden_dim=[4], dropout=[0.0, 0.5], k=[0, 1, 2, 3], add_self_loops=[True, False]),
    "gcnii": dict(hidden_dim=[4], num_layers=[1, 2, 5], alpha=[0.1, 0.5], lam=[0.5, 1.5], dropout=[0.0, 0.5], add_self_loops=[True, False]),
    "gat": dict(head_dim=[2, 3], heads=[1, 3], dropout=[0.0, 0.6], negative_slope=[0.2, 0.0], add_self_loops=[True, False]),
    "n_gcn": dict(hidden_dim=[3], gcn_layers=[1, 2, 3], K=[1, 3], r=[1, 2], classifier=["fc", "attention"], dropout=[0.0, 0.5], add_self_loops=[True, False]),
    "h_gcn": dict(hidden_dim=[4], num_layers=[3, 5], channels=[1, 2], weight_embed_dim=[1, 3], dropout=[0.0, 0.15], add_self_loops=[True]),
    "grand": dict(hidden_dim=[4], mlp_dropout=[0.0, 0.5], prop_steps=[0, 2, 4], dropnode=[0.0, 0.5], num_samples=[1, 3], lambda_consistency=[0.0, 1.0], add_self_loops=[True, False]),
    "graphhop": dict(hops=[1, 2, 3], max_iter=[1, 3], max_epochs=[3, 8], patience=[1, 10], temperature=[0.1, 1.0], alpha=[1.0, 0.3], beta=[1.0, 0.0]),
    "planetoid": dict(embedding_dim=[3], num_walks=[1, 2], walk_length=[2, 5], window_size=[1, 2, 5], p=[1.0, 0.5, 3.0], q=[1.0, 0.25, 2.0], num_negative=[1, 3], batch_size=[7, 32, 1000], sup_batch_size=[2, 256], epochs=[1, 3],
                      lambda_sup=[0.0, 1.0, 2.0], undirected=[True, False], lr=[0.01, 0.1], weight_decay=[0.0, 0.05]),
    "grafn": dict(hidden_dims=[(3,), (4, 2)], tau=[0.1, 1.0], thres=[0.0, 0.6, 0.9], lam_consistency=[0.0, 0.5, 2.0], lam_nodewise=[0.0, 0.5], drop_feat_strong=[0.0, 0.5], drop_edge_strong=[0.0, 0.5],
                  drop_feat_weak=[0.0, 0.3], drop_edge_weak=[0.0, 0.3]),
}


@M.scenario(quick=1000, thorough=14000)
def equations(c):
    import torch

    mid = gnnref.METHODS[c.index % len(gnnref.METHODS)]
    opts = {k: c.pick(v) for k, v in OPTIONS[mid].items()}
    if mid not in ("graphhop", "planetoid"):
        opts.update(max_epochs=c.pick([1, 2, 5, 9, 9, 24]), patience=c.pick([1, 2, 3, 4, 50]), weight_decay=c.pick([0.0, 5e-4, 0.05]))
        if "lr" not in opts:
            opts["lr"] = c.pick([0.01, 0.1, 0.1, 0.4])
    symmetric = True if not opts.get("add_self_loops", True) else None
    d, k, v = dataset(c, mid, symmetric=symmetric, loops=False if mid in ("h_gcn", "n_gcn") else None)
    d.X = (d.X * c.pick([1.0, 1.0, 3.0])).astype(np.float32)
    meth = tmeth.method(mid, **opts)
    seed = c.pick([0, 7, c.py.randrange(10**6)])
    P = np.asarray(meth.fit(d, device=None, seed=seed).predict_proba(d), float)
    R = gnnref.run(mid, d, meth.spec, seed, torch.float64)
    S = gnnref.run(mid, d, meth.spec, seed, torch.float32)
    noise = np.abs(R - S).max()
    if mid == "grafn":  # hard confidence threshold
        noise = max(noise, *(np.abs(R - gnnref.run(mid, d, replace(meth.spec, thres=meth.spec.thres + e), seed, torch.float64)).max() for e in (-2e-3, 2e-3)))
    has_val = "val_mask" in d.masks
    if not noise < 1e-3:  # the training itself amplifies rounding: the reference in two precisions disagrees
        c.count("skipped:rounding-sensitive")
        return
    err = np.abs(P - R).max()
    c.check(err <= 2e-3 + 60 * noise, "equations-differ", lambda: f"{mid} {opts} n={len(d.y)} k={k} val={int(v.sum())}: probabilities off by {err:.2e} (reference precision {noise:.1e})")
    c.nontrivial((mid, has_val, tuple(sorted(opts.items()))))


@M.scenario(quick=200, thorough=4000)
def stopping(c):
    """Noisy validation losses: the patience counter restarts at every improvement."""
    import torch

    mid = c.pick(["gcn", "graphsage", "appnp", "chebnet", "gcnii", "sgc", "grand", "n_gcn"])
    opts = dict(max_epochs=30, patience=c.pick([2, 3, 3, 4, 5]), lr=c.pick([0.05, 0.2, 0.4]), weight_decay=0.0)
    if mid == "grand":
        opts.update(mlp_dropout=0.5, dropnode=0.5)
    elif mid != "sgc":
        opts["dropout"] = c.pick([0.4, 0.6])
    d, k, v = dataset(c, mid, val=True, loops=False if mid == "n_gcn" else None)
    meth = tmeth.method(mid, **opts)
    seed = c.py.randrange(10**6)
    P = np.asarray(meth.fit(d, device=None, seed=seed).predict_proba(d), float)
    R, S = (gnnref.run(mid, d, meth.spec, seed, t) for t in (torch.float64, torch.float32))
    noise = np.abs(R - S).max()
    if not noise < 1e-3:
        c.count("skipped:rounding-sensitive")
        return
    err = np.abs(P - R).max()
    c.check(err <= 2e-3 + 60 * noise, "equations-differ", lambda: f"{mid} {opts} n={len(d.y)} k={k} val={int(v.sum())}: probabilities off by {err:.2e} (reference precision {noise:.1e})")
    c.nontrivial((mid, opts["patience"], opts["lr"]))


@M.scenario(quick=300, thorough=6000)
def scripted_losses(c):
    """The shared training loop fed any sequence of validation losses keeps the first best epoch and stops `patience` epochs after it."""
    import torch
    from modssc.transductive.methods.gnn import common

    train = getattr(common, "train_fullbatch", None)
    if train is None:
        c.count("skipped:no-shared-loop")
        return
    E, patience = c.pick([1, 2, 6, 15, 40]), c.pick([1, 2, 3, 5, 100])
    levels = c.pick([3, 8, 1000])
    script = (c.rng.integers(1, levels + 1, E) / levels).tolist() if c.chance(0.6) else np.maximum(0.05, np.cumsum(c.rng.normal(size=E)) * 0.1 + 1.5).tolist()

    class Net(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.w = torch.nn.Parameter(torch.zeros(1))
            self.register_buffer("steps", torch.zeros(1))

    net, seen, y = Net(), [], torch.tensor([0, 0, 0])
    tr, va = torch.tensor([True, False, False]), torch.tensor([False, True, c.chance(0.5)])

    def forward():
        z = torch.zeros(3, 2) + net.w * 0
        if net.training:
            net.steps += 1
            return z
        L = script[len(seen)]
        seen.append(L)
        return z + torch.tensor([0.0, float(np.log(np.expm1(L)))])  # cross entropy of class 0 is L

    r = train(model=net, forward_fn=forward, y=y, train_mask=tr, val_mask=va, lr=0.1, weight_decay=0.0, max_epochs=E, patience=patience, seed=c.py.randrange(9))
    best, bad, ran = 0, 0, 1
    for e in range(1, E):
        if e and bad >= patience:
            break
        ran += 1
        if script[e] < script[best] - 1e-6:
            best, bad = e, 0
        elif abs(script[e] - script[best]) <= 1e-6 and script[e] != script[best]:
            return
        else:
            bad += 1
    desc = f"patience={patience} losses={np.round(script, 4).tolist()}"
    c.check(len(seen) == ran and int(r.n_epochs) == ran, "wrong-stopping-epoch", lambda: f"{desc}: ran {len(seen)} epochs and reports {r.n_epochs}, expected {ran}")
    c.check(int(net.steps.item()) == best + 1 and int(r.best_epoch) == best and abs(r.best_val_loss - script[best]) < 1e-4, "wrong-epoch-kept",
            lambda: f"{desc}: kept the state after {int(net.steps.item())} steps, reports epoch {r.best_epoch} loss {r.best_val_loss}, expected epoch {best}")
    c.nontrivial((E, patience, ran == E, best))


@M.scenario(quick=150, thorough=3000)
def best_epoch(c):
    """The kept parameters are those of a prefix of training, the one the validation rule selects."""
    mid = c.pick([m for m in gnnref.FULL])
    d, k, v = dataset(c, mid, val=True)
    if not v.any():
        return
    E, patience, lr = c.pick([4, 8, 14, 20]), c.pick([1, 2, 3, 4]), c.pick([0.05, 0.3, 0.8])
    over = dict(patience=patience, lr=lr)
    if mid != "sgc":
        over["dropout"] = 0.0
    seed = c.py.randrange(1000)
    P = np.asarray(tmeth.method(mid, epochs=E, **over).fit(d, device=None, seed=seed).predict_proba(d), float)
    plain = gnn_no_val(d)
    runs = [np.asarray(tmeth.method(mid, epochs=e, **over).fit(plain, device=None, seed=seed).predict_proba(plain), float) for e in range(1, E + 1)]
    loss = [float(-np.log(np.maximum(r[v, d.y[v]], 1e-300)).mean()) for r in runs]
    best, bad = 0, 0
    for e in range(1, E):
        if loss[e] < loss[best] - 1e-9:
            best, bad = e, 0
        else:
            bad += 1
            if bad >= patience:
                break
    order = sorted(loss)
    if any(b - a < 1e-5 for a, b in zip(order, order[1:])):
        c.count("skipped:near-tie")
        return
    c.check(np.abs(P - runs[best]).max() < 1e-5, "wrong-epoch-kept", lambda: f"{mid} E={E} patience={patience}: losses {np.round(loss, 5).tolist()}, expected epoch {best}, distances {[float(np.abs(P - r).max()) for r in runs]}")
    c.nontrivial((mid, best, patience))


def gnn_no_val(d):
    from vf import tgen

    e = tgen.copy_data(d)
    e.masks.pop("val_mask", None)
    return e
