"""A01: an augmented sample depends only on the sample, the plan and its context, and the sample itself is never changed."""
import itertools

import numpy as np
from modssc.data_augmentation.api import build_pipeline, build_strategy
from modssc.data_augmentation.plan import AugmentationPlan, StepConfig
from modssc.data_augmentation.types import AugmentationContext
from modssc.data_augmentation.errors import DataAugmentationError
from modssc.data_augmentation.registry import available_ops, get_op, register_op
from modssc.data_augmentation.types import AugmentationOp

from vf import auggen, gen
from vf.core import Module
from vf.xproc import fresh_process

M = Module(
    "A01",
    rule="Plans of every operation run over many contexts (seed, epoch, sample id) in varied order, with the process's generators disturbed, on reused and new pipelines, in weak/strong pairs and in "
    "another process. Monitors compare the outputs, snapshot the inputs and the global generators. Non-trivial: distinct (operation list, backend) whose output differs from the input.",
    preload=["torch", "modssc.data_augmentation"],
)


def contexts(c, n):
    seeds = [0, 1, 12, 2**31 - 1, c.py.randrange(10**6)]
    return [AugmentationContext(seed=c.pick(seeds), epoch=c.py.randint(0, 30), sample_id=c.py.randint(0, 5000)) for _ in range(n)]


def apply(pipe, x, ctx, twice=False):
    return auggen.plain(pipe(x, ctx=ctx) if twice else pipe.apply(x, ctx=ctx))


@M.scenario(quick=300, thorough=20000)
def repeatable(c):
    kind = c.pick(list(auggen.OPS))
    backend = "numpy" if kind == "text" else c.pick(["numpy", "torch"])
    plan = auggen.random_plan(c, kind)
    x = auggen.make_input(c, kind, backend)
    before = auggen.plain(x)
    desc = f"{kind}/{backend} {[(s.op_id, s.params) for s in plan.steps]}"
    pipe = build_pipeline(plan)
    ctxs = contexts(c, 6)
    state = gen.rng_state_digest()
    first = [apply(pipe, x, k) for k in ctxs]
    c.check(gen.rng_state_digest() == state, "global-generator-advanced", desc)
    c.check(auggen.plain(x) == before, "input-changed", desc)
    order = list(range(len(ctxs)))
    c.py.shuffle(order)
    gen.perturb_global_rng(c)
    fresh = build_pipeline(plan) if c.chance(0.5) else pipe
    for i in order:
        if c.chance(0.3):
            apply(fresh, auggen.make_input(c, kind, backend), c.pick(ctxs))
        got = apply(fresh, x, ctxs[i], c.chance(0.5))
        c.check(got == first[i], "same-context-other-output", f"{desc} ctx={ctxs[i]}")
    other = auggen.random_plan(c, kind)
    alone = [apply(build_pipeline(other), x, k) for k in ctxs[:3]]
    for (w, s), i in zip([(plan, other), (other, plan), (plan, plan)], range(3), strict=True):
        got = build_strategy(weak=w, strong=s).apply(x, ctx=ctxs[i])
        pick = lambda p: first[i] if p is plan else alone[i]
        c.check((auggen.plain(got[0]), auggen.plain(got[1])) == (pick(w), pick(s)), "strategy-differs-from-pipelines", f"{desc} with {[(s.op_id, s.params) for s in other.steps]}")
    c.check(auggen.plain(x) == before, "input-changed", desc)
    if any(f != before for f in first):
        c.nontrivial([sorted({s.op_id for s in plan.steps}), backend])
    c.count("contexts_compared", len(ctxs))
    c.sample(desc)


@M.scenario(quick=60, thorough=3000)
def contexts_are_separate(c):
    """Different (seed, epoch, sample id) draw different noise; each field takes part, also where decimal digits could run together."""
    torch_side = c.chance(0.5)
    op = c.pick(["tabular.gaussian_noise", "tabular.swap_noise", "audio.add_noise", "vision.gaussian_noise"])
    pipe = build_pipeline(AugmentationPlan(steps=(StepConfig(op_id=op, params={"p": 1.0} if "swap" in op else {"std": 1.0}),)))
    x = np.zeros((2, 6), dtype="float64")
    if torch_side:
        x = auggen.torch_().as_tensor(x)
    base = [c.pick([0, 1, 2, 7, 11, 12, 121, 2**31, 2**32 + 1]) for _ in range(3)]
    alt = [c.pick([3, 4, 21, 112, 1121, 2**16, 2**33 + 5]) for _ in range(3)]
    seen = {}
    grid = set(itertools.product(*zip(base, alt, strict=True))) | set(itertools.permutations(base)) | set(itertools.permutations(alt))
    for s, e, i in sorted(grid):
        out = np.asarray(pipe.apply(x, ctx=AugmentationContext(seed=s, epoch=e, sample_id=i))).round(12)
        key = out.tobytes()
        c.check(key not in seen, "contexts-share-draws", f"{op}: (seed, epoch, sample) {(s, e, i)} and {seen.get(key)} draw the same noise")
        c.check(len(np.unique(out)) == out.size, "noise-repeats", f"{op}: cells share noise")
        seen[key] = (s, e, i)
    c.count("contexts_told_apart", len(grid))
    c.nontrivial([op, torch_side, len(grid)])


class Rec(AugmentationOp):
    log = []

    def __init__(self, tag="", draws=0):
        self.op_id, self.modality, self.tag, self.draws = "verif.rec", "any", tag, draws

    def apply(self, x, *, rng, ctx):
        Rec.log.append((self.tag, list(x), ctx, [float(v) for v in rng.random(self.draws)]))
        return [*x, self.tag]


Rec.op_id, Rec.modality = "verif.rec", "any"


@M.scenario(quick=80, thorough=3000)
def composition(c):
    """Steps run once each, in plan order, on the previous step's output, from one stream of draws; weak and strong both start from the sample."""
    register_op("verif.rec")(Rec)
    tags = lambda k: [f"s{i}" for i in c.py.sample(range(20), k)]
    mk = lambda ts: AugmentationPlan(steps=tuple(StepConfig(op_id="verif.rec", params={"tag": t, "draws": c.py.randint(1, 3)}) for t in ts))
    ctx = contexts(c, 1)[0]
    t1, t2 = tags(c.py.randint(0, 5)), tags(c.py.randint(1, 5))
    weak, strong = mk(t1), mk(t2)
    Rec.log.clear()
    x = ["x"]
    w, s = build_strategy(weak=weak, strong=strong).apply(x, ctx=ctx)
    log = list(Rec.log)
    c.check(x == ["x"] and list(w) == ["x", *t1] and list(s) == ["x", *t2], "strategy-order", f"{w} {s} for {t1} {t2}")
    c.check(all(k is ctx or k == ctx for _, _, k, _ in log), "context-replaced", log)
    for ts in (t1, t2):
        i0 = 0 if ts is t1 else len(t1)
        seen = [v for _, _, _, d in log[i0 : i0 + len(ts)] for v in d]
        c.check(len(set(seen)) == len(seen), "steps-share-draws", f"steps of one pipeline repeat draws {seen}")
    Rec.log.clear()
    out = build_pipeline(strong).apply(["x"], ctx=ctx)
    c.check(list(out) == ["x", *t2] and Rec.log == log[len(t1) :], "strategy-differs-from-pipeline", f"{Rec.log} {log}")
    c.check([inp for _, inp, _, _ in Rec.log] == [["x", *t2[:i]] for i in range(len(t2))], "step-input", Rec.log)
    c.nontrivial([len(t1), len(t2)])


@M.scenario(quick=120, thorough=4000)
def refusals(c):
    kind = c.pick(list(auggen.OPS))
    mod = {"tokens": "text"}.get(kind, kind)
    op = c.pick(auggen.OPS[kind])
    other = c.pick([m for m in ("vision", "text", "tabular", "audio", "graph") if m != mod])
    case = c.pick(["modality", "unknown", "param", "range", "listing", "steps", "core"])
    if case == "modality":
        steps = (StepConfig("core.identity"), StepConfig(op, auggen.params(c, op)))
        c.raises(DataAugmentationError, lambda: build_pipeline(AugmentationPlan(steps=steps, modality=other)), "modality-mixed", f"{op} in a {other} plan")
        build_pipeline(AugmentationPlan(steps=steps, modality=mod))
    elif case == "unknown":
        for bad in (op + "x", op.split(".")[-1], op.upper(), ""):
            c.raises(DataAugmentationError, lambda b=bad: build_pipeline(AugmentationPlan(steps=(StepConfig(b),))), "unknown-op-accepted", bad)
    elif case == "param":
        c.raises(DataAugmentationError, lambda: get_op(op, no_such=1), "unknown-param-accepted", op)
    elif case == "range":
        bad = {k: c.pick([-0.01, 1.01, -3]) for k in ("p", "max_frac", "frac") if k in auggen.params(c, op)} or {k: -0.5 for k in ("std",) if k in auggen.params(c, op)}
        if bad:
            backend = "numpy" if kind == "text" else c.pick(["numpy", "torch"])
            x = auggen.make_input(c, kind, backend)
            c.raises((ValueError, DataAugmentationError), lambda: build_pipeline(AugmentationPlan(steps=(StepConfig(op, bad),))).apply(x, ctx=AugmentationContext(seed=0)),
                     "bad-parameter-accepted", f"{op} {bad}")
    elif case == "listing":
        ids = available_ops(modality=mod)
        c.check(ids == sorted(set(ids)) and set(auggen.OPS[kind]) <= set(ids) and {"core.identity", "core.ensure_float32"} <= set(ids), "listing", ids)
        c.check(all(get_op(i).modality in (mod, "any") for i in ids if not i.startswith("verif.")), "listing-modality", ids)
        c.check(all(i in available_ops() for i in ids), "listing", ids)
    elif case == "steps":
        c.raises((DataAugmentationError, TypeError), lambda: build_pipeline(AugmentationPlan(steps=[StepConfig(op)])), "list-steps-accepted", op)
        c.raises((DataAugmentationError, TypeError), lambda: build_pipeline(AugmentationPlan(steps=(op,))), "string-step-accepted", op)
    else:
        a = c.rng.integers(-50, 50, size=(3, 4)).astype(c.pick(["int64", "float64", "float32", "uint8", "bool"]))
        x = auggen.torch_().as_tensor(a) if c.chance(0.5) else a
        p = build_pipeline(AugmentationPlan(steps=(StepConfig("core.ensure_float32"), StepConfig("core.identity"))))
        out = p.apply(x, ctx=AugmentationContext(seed=0))
        c.check(type(out) is type(x) and str(out.dtype).endswith("float32") and np.array_equal(np.asarray(out), a.astype("float32")), "cast-to-float32", f"{a.dtype}")
    c.nontrivial([case, op])


def in_process(payload):
    from vf.core import Case, Stats

    c = Case("A01", "other_process", payload["index"], payload["seed"], "quick", Stats())
    return digest_all(c)


def digest_all(c):
    import hashlib
    import json

    out = []
    for kind in auggen.OPS:
        for backend in ["numpy"] + ([] if kind == "text" else ["torch"]):
            plan, x, k = auggen.random_plan(c, kind), auggen.make_input(c, kind, backend), contexts(c, 1)[0]
            r = apply(build_pipeline(plan), x, k)
            out.append([kind, backend, str([s.op_id for s in plan.steps]), hashlib.sha256(json.dumps(r, sort_keys=True).encode()).hexdigest()])
    return out


@M.scenario(quick=4, thorough=60)
def other_process(c):
    from vf.core import Case, Stats

    mine = digest_all(Case("A01", "other_process", c.index, c.seed, "quick", Stats()))
    gen.perturb_global_rng(c)
    theirs = fresh_process("checks.A01", "in_process", {"index": c.index, "seed": c.seed})
    c.check(mine == theirs, "process-dependent", lambda: f"{[(a, b) for a, b in zip(mine, theirs, strict=True) if a != b]}")
    c.nontrivial(c.index)
