"""Own models and training loops for the torch classifiers (same random draws, written from their description)."""
from __future__ import annotations

import numpy as np


def _act(name):
    import torch

    return {"relu": torch.relu, "tanh": torch.tanh, "gelu": torch.nn.functional.gelu}[name]


def build(cid, p, in_shape, n_classes):
    """(params, forward(x, training)) for the architecture `cid`; draws from torch's global generator in layer order."""
    import torch
    from torch import nn

    F = nn.functional
    act = _act(p.get("activation", "relu"))
    drop = float(p.get("dropout", {"mlp": 0.1, "image_cnn": 0.2, "audio_cnn": 0.2, "text_cnn": 0.5, "lstm_scratch": 0.5, "audio_cnn_scratch": 0.5}.get(cid, 0.0)))
    mods = []

    def keep(m):
        mods.append(m)
        return m

    if cid in ("logreg", "mlp"):
        hidden = p.get("hidden_sizes", ()) if cid == "mlp" else ()
        hidden = () if hidden is None else (hidden,) if isinstance(hidden, int) else tuple(hidden)
        sizes = [int(np.prod(in_shape)), *hidden, n_classes]
        ls = [keep(nn.Linear(a, b)) for a, b in zip(sizes, sizes[1:])]

        def fwd(x, train):
            x = x.reshape(len(x), -1)
            for m in ls[:-1]:
                x = act(F.linear(x, m.weight, m.bias))
                if drop:
                    x = F.dropout(x, drop, train)
            return F.linear(x, ls[-1].weight, ls[-1].bias)

    elif cid in ("image_cnn", "audio_cnn"):
        dim = 2 if cid == "image_cnn" else 1
        C, conv = (nn.Conv2d, F.conv2d) if dim == 2 else (nn.Conv1d, F.conv1d)
        ks = p["kernel_size"]
        ch = [in_shape[0], *p["conv_channels"]]
        cs = [keep(C(a, b, ks, padding=ks // 2)) for a, b in zip(ch, ch[1:])]
        fc = p["fc_dim"]
        ls = [keep(nn.Linear(ch[-1], fc)), keep(nn.Linear(fc, n_classes))] if fc else [keep(nn.Linear(ch[-1], n_classes))]

        def fwd(x, train):
            for m in cs:
                x = act(conv(x, m.weight, m.bias, padding=ks // 2))
            x = x.mean(dim=tuple(range(2, 2 + dim)))
            if fc:
                x = act(F.linear(x, ls[0].weight, ls[0].bias))
                if drop:
                    x = F.dropout(x, drop, train)
            return F.linear(x, ls[-1].weight, ls[-1].bias)

    elif cid == "text_cnn":
        L, D = in_shape
        ks = [k for k in p["kernel_sizes"] if k <= L]
        cs = [keep(nn.Conv1d(D, p["num_filters"], k)) for k in ks]
        head = keep(nn.Linear(p["num_filters"] * len(ks), n_classes))

        def fwd(x, train):
            x = x.permute(0, 2, 1)
            z = torch.cat([act(F.conv1d(x, m.weight, m.bias)).amax(dim=2) for m in cs], dim=1)
            return F.linear(F.dropout(z, drop, train), head.weight, head.bias)

    elif cid == "lstm_scratch":
        emb = keep(nn.Embedding(p["vocab_size"], p["embedding_dim"], padding_idx=0))
        rnn = keep(nn.LSTM(p["embedding_dim"], p["hidden_dim"], num_layers=p["num_layers"], batch_first=True, dropout=drop if p["num_layers"] > 1 else 0))
        head = keep(nn.Linear(p["hidden_dim"], n_classes))

        def fwd(x, train):
            rnn.train(train)
            out, _ = rnn(F.embedding(x, emb.weight, padding_idx=0))
            return F.linear(F.dropout(out[:, -1], drop, train), head.weight, head.bias)

    elif cid == "audio_cnn_scratch":
        ch = [1] + [p["base_channels"] * 2**i for i in range(p["num_blocks"])]
        cs, bs = [], []
        for a, b in zip(ch, ch[1:]):
            cs.append(keep(nn.Conv2d(a, b, 3, 1, 1)))
            bs.append(keep(nn.BatchNorm2d(b)))
        head = keep(nn.Linear(ch[-1], n_classes))

        def fwd(x, train):
            if x.ndim == 3:
                x = x[:, None]
            for m, b in zip(cs, bs):
                b.train(train)
                x = F.max_pool2d(torch.relu(b(F.conv2d(x, m.weight, m.bias, padding=1))), 2)
            return F.linear(F.dropout(x.mean(dim=(2, 3)), drop, train), head.weight, head.bias)

    else:
        raise KeyError(cid)
    return [q for m in mods for q in m.parameters()], fwd


def train(cid, p, X, y, seed):
    """Train as documented and return scores(X) -> softmax probabilities (numpy)."""
    import torch

    F = torch.nn.functional
    loader = cid in ("lstm_scratch", "audio_cnn_scratch")
    y = np.asarray(y)
    classes, enc = np.unique(y, return_inverse=True)
    enc = torch.as_tensor(enc.reshape(-1))
    Xt = torch.as_tensor(np.asarray(X))
    Xt = Xt.long() if cid == "lstm_scratch" else Xt.float()
    torch.manual_seed(seed)
    ps, fwd = build(cid, p, tuple(X.shape[1:]), len(classes))
    if cid == "lstm_scratch":
        opt = torch.optim.Adam(ps, lr=p["lr"], weight_decay=p["weight_decay"])
    else:
        opt = torch.optim.AdamW(ps, lr=p["lr"], weight_decay=p["weight_decay"])
    n, bs = len(y), p["batch_size"]
    gen = torch.Generator().manual_seed(seed) if loader else None
    for _ in range(p["max_epochs"]):
        if loader:
            order = torch.cat(list(torch.utils.data.DataLoader(torch.arange(n), batch_size=bs, shuffle=True, generator=gen)))
        else:
            order = torch.randperm(n)
        for i in range(0, n, bs):
            idx = order[i : i + bs]
            loss = F.cross_entropy(fwd(Xt[idx], True), enc[idx])
            opt.zero_grad()
            loss.backward()
            opt.step()

    def scores(Q):
        Q = torch.as_tensor(np.asarray(Q))
        Q = Q.long() if cid == "lstm_scratch" else Q.float()
        with torch.no_grad():
            return torch.softmax(fwd(Q, False), dim=1).numpy()

    return scores


def train_sage(p, X, edges, y, seed):
    """Full-batch GraphSAGE with mean aggregation of in-neighbours, dense."""
    import torch
    from torch_geometric.nn import SAGEConv

    F = torch.nn.functional
    act = _act(p.get("activation", "relu"))
    k = int(np.max(y)) + 1
    if p.get("hidden_sizes"):
        sizes = [X.shape[1], *p["hidden_sizes"], k]
    else:
        sizes = [X.shape[1]] + [p.get("hidden_channels", 128)] * (p.get("num_layers", 2) - 1) + [k]
    torch.manual_seed(seed)
    convs = [SAGEConv(a, b) for a, b in zip(sizes, sizes[1:])]  # only its initial weights are used
    ps = [q for m in convs for q in m.parameters()]
    opt = torch.optim.Adam(ps, lr=p["lr"], weight_decay=p["weight_decay"])

    def mean_op(e, n):
        A = torch.zeros(n, n)
        for s, t in np.asarray(e).T:
            A[int(t), int(s)] += 1
        return A / A.sum(dim=1, keepdim=True).clamp(min=1)

    def fwd(x, A, train):
        for i, m in enumerate(convs):
            x = F.linear(A @ x, m.lin_l.weight, m.lin_l.bias) + F.linear(x, m.lin_r.weight)
            if i < len(convs) - 1:
                x = F.dropout(act(x), p["dropout"], train)
        return x

    A, Xt, yt = mean_op(edges, len(y)), torch.as_tensor(X).float(), torch.as_tensor(np.asarray(y))
    for _ in range(p["max_epochs"]):
        opt.zero_grad()
        F.cross_entropy(fwd(Xt, A, True), yt).backward()
        opt.step()

    def scores(Q, e):
        with torch.no_grad():
            return torch.softmax(fwd(torch.as_tensor(Q).float(), mean_op(e, len(Q)), False), dim=1).numpy()

    return scores
