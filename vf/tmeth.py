"""Which transductive methods exist, small settings for them and what each promises."""
from __future__ import annotations

from dataclasses import replace

from modssc.transductive.registry import available_methods, get_method_class

CLASSIC = ["label_propagation", "label_spreading", "laplace_learning", "lazy_random_walk", "dynamic_label_propagation", "graph_mincuts", "poisson_learning", "poisson_mbo", "p_laplace_learning"]
GNN = ["gcn", "sgc", "graphsage", "appnp", "chebnet", "gcnii", "gat", "h_gcn", "n_gcn", "grand", "grafn", "planetoid", "graphhop"]
BINARY = {"lazy_random_walk", "graph_mincuts", "tsvm"}
ALL = CLASSIC + ["tsvm"] + GNN
SUM_ONE = set(GNN) | {"tsvm", "p_laplace_learning", "graph_mincuts", "lazy_random_walk", "poisson_mbo"}
FROM_X = ["gcn", "graphsage", "appnp", "chebnet", "gcnii", "gat", "grand", "grafn", "h_gcn", "n_gcn"]  # predictions use the given features
SMALL = {
    "dynamic_label_propagation": dict(max_iter=4),
    "gcn": dict(hidden_dim=4), "sgc": dict(), "graphsage": dict(hidden_dim=4), "appnp": dict(hidden_dim=4, k=3), "chebnet": dict(hidden_dim=4), "gcnii": dict(hidden_dim=4, num_layers=3),
    "gat": dict(head_dim=3, heads=2), "h_gcn": dict(hidden_dim=4, num_layers=3, channels=2, weight_embed_dim=2), "n_gcn": dict(hidden_dim=4, K=2, r=1), "grand": dict(hidden_dim=4, prop_steps=2, num_samples=2),
    "grafn": dict(hidden_dims=(4,)), "planetoid": dict(embedding_dim=4, num_walks=1, walk_length=4, window_size=2, batch_size=8, epochs=1), "graphhop": dict(max_iter=2, max_epochs=5),
}


def check_registry():
    missing = set(available_methods()) ^ set(ALL)
    assert not missing, f"method list out of date: {missing}"


def method(mid, *, epochs=4, **over):
    cls = get_method_class(mid)
    kw = dict(SMALL.get(mid, {}))
    spec = cls().spec
    if hasattr(spec, "max_epochs") and "max_epochs" not in kw:
        kw["max_epochs"] = epochs
    kw.update(over)
    return cls(replace(spec, **kw)) if kw else cls()
