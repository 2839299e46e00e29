"""H01: a search space yields exactly its points, each once, in an order and with draws that depend on nothing but the space and the seed."""
import copy
import itertools
import json
import math

import numpy as np

from vf.core import Module, short

M = Module(
    "H01",
    rule="Generated nested spaces (lists with nested values, choice/uniform/loguniform/randint, any key order) are enumerated and sampled; the points are compared with the "
    "own product of the leaves, bounds and independence are checked, draws are tested against their distribution, patches are merged and flattened. "
    "Non-trivial: spaces with two or more leaves.",
    preload=["modssc.hpo"],
)
VALS = [0, 1, -3, 2.5, 1e-8, True, False, None, "a", "", [1, 2], [], {"k": 1}, {"deep": {"x": [1]}}, "dist"]


def leaf(c, grid):
    kinds = ["list", "list", "choice"] + ([] if grid else ["uniform", "loguniform", "randint"])
    k = c.pick(kinds)
    if k in ("list", "choice"):
        v = [copy.deepcopy(c.pick(VALS)) for _ in range(c.py.randint(1, 4) if not c.chance(0.12) else 11)]
        return v if k == "list" else {"dist": "choice", "values": v}
    if k == "uniform":
        lo = c.pick([-2.0, 0.0, 1, 1e-9, 0.1, 1e6])
        return {"dist": "uniform", "low": lo, "high": lo + c.pick([1e-8, 1e-6, 1.0, 50])}
    if k == "loguniform":
        lo = c.pick([1e-6, 0.01, 1, 3.0])
        return {"dist": "loguniform", "low": lo, "high": lo * c.pick([1.5, 10, 1e4])}
    lo = c.py.randint(-3, 5)
    return {"dist": "randint", "low": lo, "high": lo + c.pick([1, 2, 9])}


def space(c, grid):
    """(nested dict in a random key order, {path: leaf})"""
    leaves = {}
    for _ in range(c.py.randint(1, 5)):
        if grid and np.prod([len(vals(v)) for v in leaves.values()]) > 300:
            break
        path = tuple(c.pick(["a", "b", "lr", "method", "params", "Z", "x1"]) for _ in range(c.py.randint(1, 4)))
        if any(path[: len(q)] == q or q[: len(path)] == path for q in leaves):
            continue
        leaves[path] = leaf(c, grid)
    items = list(leaves.items())
    return nest(items), leaves


def nest(items):
    out = {}
    for path, v in items:
        d = out
        for k in path[:-1]:
            d = d.setdefault(k, {})
        d[path[-1]] = copy.deepcopy(v)
    return out


def shuffled(c, d):
    if not isinstance(d, dict) or "dist" in d:
        return copy.deepcopy(d)
    ks = list(d)
    c.py.shuffle(ks)
    return {k: shuffled(c, d[k]) for k in ks}


def vals(lf):
    return lf if isinstance(lf, list) else lf["values"]


def at(patch, path):
    for k in path:
        patch = patch[k]
    return patch


def flat(d, pre=()):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and v:
            out.update(flat(v, pre + (str(k),)))
        else:
            out[".".join(pre + (str(k),))] = v
    return out


def J(x):
    return json.dumps(x, sort_keys=True)


def inside(v, lf):
    if isinstance(lf, list) or lf["dist"] == "choice":
        return any(type(v) is type(x) and v == x for x in vals(lf))
    if lf["dist"] == "randint":
        return type(v) is int and lf["low"] <= v < lf["high"]
    slack = 4e-15 * max(abs(lf["low"]), abs(lf["high"])) if lf["dist"] == "loguniform" else 0.0
    return type(v) is float and lf["low"] - slack <= v <= lf["high"] + slack


def judge_trials(c, what, trials, leaves):
    c.check([t.index for t in trials] == list(range(len(trials))), what + " indexes", str([t.index for t in trials]))
    for t in trials:
        c.check(t.params == flat(t.patch), what + " params are the patch flattened", lambda t=t: f"{t.params} of {t.patch}")
        c.check(J(nest([(p, at(t.patch, p)) for p in leaves])) == J(t.patch), what + " patch has the space's leaves only", lambda t=t: short(t.patch))


@M.scenario(quick=1200, thorough=25000)
def grid(c):
    from modssc.hpo import Space

    d, leaves = space(c, True)
    keep = J(d)
    trials = list(Space.from_dict(d).iter_grid())
    judge_trials(c, "grid", trials, leaves)
    order = list(leaves)
    want = sorted(J([x for x in v]) for v in itertools.product(*[vals(leaves[p]) for p in order]))
    got = sorted(J([at(t.patch, p) for p in order]) for t in trials)
    c.check(got == want, "grid points", lambda: f"{len(got)} points, expected {len(want)}; {short(got)} vs {short(want)}")
    for p in leaves:
        seen = list(dict.fromkeys(J(at(t.patch, p)) for t in trials))
        c.check(seen == list(dict.fromkeys(J(v) for v in vals(leaves[p]))), "grid takes the values in the listed order", lambda p=p: f"{vals(leaves[p])} enumerated as {seen}")
    again = list(Space.from_dict(shuffled(c, d)).iter_grid())
    c.check([J(t.patch) for t in again] == [J(t.patch) for t in trials], "grid order depends on the key order of the space", lambda: f"{short(trials)} vs {short(again)}")
    it = Space.from_dict(d)
    c.check([J(t.patch) for t in it.iter_grid()] == [J(t.patch) for t in it.iter_grid()], "grid twice", "a second enumeration differs")
    c.check(J(d) == keep, "space kept", "the space dict changed")
    if len(leaves) > 1:
        c.nontrivial((len(leaves), len(trials), tuple(sorted(len(p) for p in leaves))))


@M.scenario(quick=900, thorough=20000)
def random_draws(c):
    from modssc.hpo import Space

    d, leaves = space(c, False)
    n, seed = c.py.randint(1, 25) if not c.chance(0.1) else 90, c.py.randrange(2**32)
    np.random.seed(c.py.randrange(1000))
    trials = list(Space.from_dict(d).iter_random(seed=seed, n_trials=n))
    judge_trials(c, "random", trials, leaves)
    c.check(len(trials) == n, "number of random trials", f"{len(trials)} of {n}")
    for t in trials:
        for p, lf in leaves.items():
            c.check(inside(at(t.patch, p), lf), "draw inside its leaf", lambda t=t, p=p, lf=lf: f"{at(t.patch, p)!r} of {lf}")
    np.random.seed(c.py.randrange(1000))
    sp = Space.from_dict(shuffled(c, d))
    longer = list(sp.iter_random(seed=seed, n_trials=n + c.py.randint(0, 5)))
    c.check([J(t.patch) for t in longer[:n]] == [J(t.patch) for t in trials], "draws repeat for the seed", lambda: f"{short(trials)} vs {short(longer)}")
    c.check([J(t.patch) for t in sp.iter_random(seed=seed, n_trials=n)] == [J(t.patch) for t in trials], "draws repeat on the same space", "a second sampling differs")
    cont = [p for p, lf in leaves.items() if isinstance(lf, dict) and lf["dist"] == "uniform" and lf["high"] - lf["low"] > 0.5]
    if cont:
        xs = [at(t.patch, p) for t in trials for p in cont[:1]]
        c.check(len(set(xs)) == len(xs), "independent draws", lambda: f"repeated uniform draws {short(xs)}")
        other = list(Space.from_dict(d).iter_random(seed=seed + 1, n_trials=n))
        c.check([at(t.patch, cont[0]) for t in other] != xs, "draws depend on the seed", "another seed drew the same")
        if len(cont) > 1:
            a, b = leaves[cont[0]], leaves[cont[1]]
            u = [((at(t.patch, cont[0]) - a["low"]) / (a["high"] - a["low"]), (at(t.patch, cont[1]) - b["low"]) / (b["high"] - b["low"])) for t in trials]
            c.check(n < 3 or any(abs(x - y) > 1e-9 for x, y in u), "leaves are drawn apart", "two leaves get the same draw")
    if len(leaves) > 1:
        c.nontrivial((n, tuple(sorted("list" if isinstance(v, list) else v["dist"] for v in leaves.values()))))


@M.scenario(quick=12, thorough=120)
def distribution(c):
    from modssc.hpo import Space

    n = 3000
    k, lo, w = c.pick(["uniform", "loguniform", "randint", "choice", "list"]), c.pick([0.5, 2.0]), c.pick([3, 40])
    lf = {"uniform": {"dist": "uniform", "low": lo, "high": lo + w}, "loguniform": {"dist": "loguniform", "low": lo, "high": lo * w},
          "randint": {"dist": "randint", "low": 2, "high": 2 + w}, "choice": {"dist": "choice", "values": list(range(w))}, "list": list(range(w))}[k]
    xs = [t.patch["a"] for t in Space.from_dict({"a": lf, "z": [1, 2]}).iter_random(seed=c.py.randrange(10**6), n_trials=n)]
    u = {"uniform": lambda x: (x - lo) / w, "loguniform": lambda x: math.log(x / lo) / math.log(w), "randint": lambda x: (x - 2 + 0.5) / w}.get(k, lambda x: (x + 0.5) / w)
    q = np.histogram([u(x) for x in xs], bins=w if k not in ("uniform", "loguniform") else 10, range=(0, 1))[0]
    e = n / len(q)
    chi = float(((q - e) ** 2 / e).sum())
    df = len(q) - 1
    c.check(chi < df + 8 * math.sqrt(2 * df) + 20, "distribution of the draws", f"{lf}: chi2 {chi:.1f} at {df} degrees of freedom, counts {q.tolist()}")
    c.nontrivial((k, w))


def tree(c, depth=0):
    return {c.pick(["a", "b", "c", "lr"]): tree(c, depth + 1) if depth < 3 and c.chance(0.5) else copy.deepcopy(c.pick(VALS)) for _ in range(c.py.randint(0 if depth else 1, 3))}


def merged(a, b):
    if not (isinstance(a, dict) and isinstance(b, dict)):
        return b
    return {k: merged(a[k], b[k]) if k in a and k in b else (b[k] if k in b else a[k]) for k in {**a, **b}}


def scribble(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v)
        x["scribble"] = 1
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.append("scribble")


@M.scenario(quick=1200, thorough=25000)
def patches(c):
    from modssc.hpo import deep_merge, flatten_patch

    a, b = tree(c), tree(c)
    ka, kb = J(a), J(b)
    m = deep_merge(a, b)
    c.check(J(m) == J(merged(json.loads(ka), json.loads(kb))), "merge", lambda: f"{short(a)} + {short(b)} = {short(m)}")
    c.check(flatten_patch(b) == flat(b), "flatten", lambda: f"{short(b)} -> {flatten_patch(b)}")
    c.check(J(deep_merge(m, b)) == J(m), "merge twice", "merging the same patch again changes the result")
    scribble(m)
    c.check(J(a) == ka and J(b) == kb, "merge keeps its inputs", lambda: f"changing the merged result changed an input: {short(a)} {short(b)}")
    c.nontrivial((len(flat(a)), len(flat(b))))


@M.scenario(quick=160, thorough=1500)
def refused(c):
    from modssc.hpo import HpoError, Space

    bad = c.pick([{}, [], None, {"a": 3}, {"a": []}, {"a": {}}, {"a": {"b": "x"}}, {1: [1]}, {"": [1]}, {"dist": "uniform", "low": 0, "high": 1}, {"a": {"dist": "normal", "low": 0, "high": 1}},
                  {"a": {"dist": "uniform", "low": 1, "high": 1}}, {"a": {"dist": "uniform", "low": 2, "high": 1}}, {"a": {"dist": "uniform", "low": 0}}, {"a": {"dist": "loguniform", "low": 0, "high": 1}},
                  {"a": {"dist": "loguniform", "low": -1, "high": 1}}, {"a": {"dist": "randint", "low": 0.5, "high": 3}}, {"a": {"dist": "randint", "low": 3, "high": 3}}, {"a": {"dist": "randint", "low": True, "high": 3}},
                  {"a": {"dist": "choice"}}, {"a": {"dist": "choice", "values": []}}, {"a": {"dist": "choice", "values": "ab"}}, {"a": {"dist": "choice", "values": [1], "low": 0}},
                  {"a": {"dist": "uniform", "low": 0, "high": 1, "q": 2}}, {"a": {"dist": "uniform", "low": "0", "high": 1}}, {"a": [1], "b": {"c": {}}}])
    c.raises(HpoError, lambda: Space.from_dict(copy.deepcopy(bad)), "bad space")
    c.raises(HpoError, lambda: list(Space.from_dict({"a": c.pick([{"dist": "uniform", "low": 0, "high": 1}, {"dist": "randint", "low": 0, "high": 3}]), "b": [1]}).iter_grid()), "grid over a distribution")
    c.raises(HpoError, lambda: list(Space.from_dict({"a": [1]}).iter_random(seed=0, n_trials=c.pick([0, -1]))), "no trials")
    c.nontrivial((str(bad),))
