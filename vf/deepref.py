"""Own statement of each deep method's training objective, evaluated at the parameters the monitor recorded."""

import math

import torch
import torch.nn.functional as F

from vf.deeptape import feats, head, induced, logits

MARGIN = 1e-7


class Ambiguous(Exception):
    """A confidence sits exactly on a cut: either side is right."""


def near(a, b):
    if bool((torch.as_tensor(a, dtype=torch.float64) - torch.as_tensor(b, dtype=torch.float64)).abs().lt(MARGIN).any()):
        raise Ambiguous()


def clear_argmax(p):
    top = p.detach().topk(2, dim=1).values
    near(top[:, 0], top[:, 1])
    return p.detach().argmax(dim=1)


def at_least(p, cut):
    near(p.detach(), cut)
    return (p.detach() >= cut).to(p.dtype)


def warm(o, total, t):
    w = o["unsup_warm_up"]
    return 1.0 if w <= 0 else min(t / max(1, round(w * total)), 1.0)


def sharpen(p, T):
    lg = torch.log(p.clamp_min(1e-300)) / T
    return torch.softmax(lg, dim=1)


def ce(z, y):
    return -F.log_softmax(z, 1)[torch.arange(len(y)), y]


def soft_ce(q, z):
    return -(q * F.log_softmax(z, 1)).sum(1)


def det(P):
    return {n: v.detach() for n, v in P.items()}


class Ref:
    """o: the spec's fields; p: the problem (rows by kind, labels, classes)."""

    needs = ("L", "W", "S")

    def __init__(self, p, o, total):
        self.p, self.o, self.total, self.K = p, o, total, p.K

    def x(self, kind, ids):
        d = self.p.data[kind]
        return induced(d, ids) if isinstance(d, dict) else d[torch.as_tensor(ids, dtype=torch.long)]

    def y(self, ids):
        return self.p.y[torch.as_tensor(ids, dtype=torch.long)]

    def lg(self, P, kind, ids):
        return logits(P, self.x(kind, ids))

    def weak(self, P, b, cat_needed=True):
        """Logits of the weak view; a gradient reaches them only where the targets are left attached."""
        attached = not self.o["detach_target"] and (self.o.get("use_cat", True) or not cat_needed)
        return self.lg(P if attached else det(P), "W", b["W"])

    def after(self, st, b):
        pass

    def unsup(self, probs, zs, mask, T):
        q = sharpen(probs, T)
        lu = ce(zs, clear_argmax(q)) if self.o["hard_label"] else soft_ce(q, zs)
        return (lu * mask).sum() / mask.sum().clamp_min(1.0)


class PiModel(Ref):
    def loss(self, P, b, t, epoch):
        pw = torch.softmax(self.weak(P, b, cat_needed=False), 1)
        ps = torch.softmax(self.lg(P, "S", b["S"]), 1)
        return ce(self.lg(P, "L", b["L"]), self.y(b["L"])).mean() + self.o["lambda_u"] * warm(self.o, self.total, t) * ((ps - pw) ** 2).mean()


class MeanTeacher(Ref):
    def __init__(self, *a):
        super().__init__(*a)
        self.T = None

    def loss(self, P, b, t, epoch):
        if self.T is None:
            self.T = det(P)
        pw = torch.softmax(self.lg(self.T, "W", b["W"]), 1)
        ps = torch.softmax(self.lg(P, "S", b["S"]), 1)
        return ce(self.lg(P, "L", b["L"]), self.y(b["L"])).mean() + self.o["lambda_u"] * warm(self.o, self.total, t) * ((ps - pw) ** 2).mean()

    def after(self, st, b):
        d = self.o["ema_decay"]
        self.T = {n: d * v + (1 - d) * st.post[n] for n, v in self.T.items()}


class Temporal(Ref):
    def __init__(self, *a):
        super().__init__(*a)
        self.Z = torch.zeros(self.p.nu, self.K, dtype=self.p.dtype)
        self.E, self.epoch = torch.zeros_like(self.Z), 0

    def loss(self, P, b, t, epoch):
        a = self.o["alpha"]
        if epoch != self.epoch:
            self.Z, self.E, self.epoch = a * self.Z + (1 - a) * self.E, torch.zeros_like(self.Z), epoch
        target = self.Z[b["W"]] / max(1 - a**epoch, 1e-12)
        prob = (torch.softmax(self.lg(P, "W", b["W"]), 1) + torch.softmax(self.lg(P, "S", b["S"]), 1)) / 2
        self.last = prob.detach()
        return ce(self.lg(P, "L", b["L"]), self.y(b["L"])).mean() + self.o["lambda_u"] * warm(self.o, self.total, t) * ((prob - target) ** 2).mean()

    def after(self, st, b):
        self.E[b["W"]] = self.last


class UDA(Ref):
    def loss(self, P, b, t, epoch):
        o, zl, y = self.o, self.lg(P, "L", b["L"]), self.y(b["L"])
        sup = ce(zl, y)
        if o["tsa_schedule"] != "none":
            r = t / self.total
            a = {"linear": r, "exp": math.exp((r - 1) * 5), "log": 1 - math.exp(-r * 5)}[o["tsa_schedule"]]
            tsa = a * (1 - 1 / self.K) + 1 / self.K
            pt = torch.softmax(zl.detach(), 1)[torch.arange(len(y)), y]
            near(pt, tsa)
            sup = sup * (pt < tsa)
        q = torch.softmax(self.weak(P, b) / o["temperature"], 1)
        m = at_least(q.max(1).values, o["p_cutoff"])
        kl = (q * (torch.log(q + 1e-12) - F.log_softmax(self.lg(P, "S", b["S"]), 1))).sum(1)
        return sup.mean() + o["lambda_u"] * (kl * m).sum() / m.sum().clamp_min(1.0)


class FixMatch(Ref):
    def loss(self, P, b, t, epoch):
        o, pw = self.o, torch.softmax(self.weak(P, b), 1)
        m = at_least(pw.max(1).values, o["p_cutoff"])
        return ce(self.lg(P, "L", b["L"]), self.y(b["L"])).mean() + o["lambda_u"] * self.unsup(pw, self.lg(P, "S", b["S"]), m, o["temperature"])


class DeFixMatch(Ref):
    needs = ("L", "LS", "W", "S")

    def loss(self, P, b, t, epoch):
        o, y = self.o, self.y(b["L"])
        zl, zls = self.lg(P, "L", b["L"]), self.lg(P, "LS", b["LS"])
        pw = torch.softmax(self.weak(P, b), 1)
        pl = torch.softmax(zl.detach() if o["detach_target"] else zl, 1)
        u = self.unsup(pw, self.lg(P, "S", b["S"]), at_least(pw.max(1).values, o["p_cutoff"]), o["temperature"])
        anti = self.unsup(pl, zls, at_least(pl.max(1).values, o["p_cutoff"]), o["temperature"])
        return 0.5 * (ce(zl, y).mean() + ce(zls, y).mean()) + o["lambda_u"] * (u - anti)


class FlexMatch(Ref):
    def __init__(self, *a):
        super().__init__(*a)
        self.sel, self.acc = torch.full((self.p.ulb_size,), -1), torch.zeros(self.K, dtype=torch.float64)

    def loss(self, P, b, t, epoch):
        o, pw = self.o, torch.softmax(self.weak(P, b), 1)
        top, arg = pw.detach().max(1).values, clear_argmax(pw)
        m = at_least(top, o["p_cutoff"] * self.acc[arg] / (2 - self.acc[arg]))
        sel = at_least(top, o["p_cutoff"]).bool()
        out = ce(self.lg(P, "L", b["L"]), self.y(b["L"])).mean() + o["lambda_u"] * self.unsup(pw, self.lg(P, "S", b["S"]), m, o["temperature"])
        if sel.any():
            g = self.p.idx_u[torch.as_tensor(b["W"])]
            self.sel[g[sel]] = arg[sel]
            n = torch.tensor([(self.sel == k).sum() for k in range(self.K)], dtype=torch.float64)
            top = max(int(n.max()), int((self.sel == -1).sum())) if o["thresh_warmup"] else int(n.max())
            self.acc = n / max(top, 1)
        return out


class AdaMatch(Ref):
    def __init__(self, *a):
        super().__init__(*a)
        self.m = torch.full((self.K,), 1 / self.K, dtype=torch.float64)
        self.t = self.m.clone()

    def loss(self, P, b, t, epoch):
        o, zl = self.o, self.lg(P, "L", b["L"])
        pu, pl, e = torch.softmax(self.weak(P, b), 1), torch.softmax(zl.detach(), 1), o["ema_p"]
        self.m = e * self.m + (1 - e) * pu.detach().mean(0)
        self.t = e * self.t + (1 - e) * pl.mean(0)
        al = pu * (self.t / self.m.clamp_min(1e-6))
        al = al / al.sum(1, keepdim=True)
        m = at_least(al.max(1).values, float(pl.max(1).values.mean() * o["p_cutoff"]))
        return ce(zl, self.y(b["L"])).mean() + o["lambda_u"] * self.unsup(al, self.lg(P, "S", b["S"]), m, o["temperature"])


class SoftMatch(AdaMatch):
    def __init__(self, *a):
        super().__init__(*a)
        n = self.K if self.o["per_class"] else 1
        self.mu, self.var = torch.full((n,), 1 / self.K, dtype=torch.float64), torch.ones(n, dtype=torch.float64)

    def loss(self, P, b, t, epoch):
        o, zl = self.o, self.lg(P, "L", b["L"])
        pu, pl, e = torch.softmax(self.weak(P, b), 1), torch.softmax(zl.detach(), 1), o["ema_p"]
        al = pu
        if o["dist_align"]:
            self.m = e * self.m + (1 - e) * pu.detach().mean(0)
            if not o["dist_uniform"]:
                self.t = e * self.t + (1 - e) * pl.mean(0)
            al = pu * (self.t / self.m.clamp_min(1e-6))
            al = al / al.sum(1, keepdim=True)
        arg, top = clear_argmax(al), al.max(1).values
        groups = [arg == k for k in range(self.K)] if o["per_class"] else [torch.ones(len(top), dtype=torch.bool)]
        for j, g in enumerate(groups):
            v = top.detach()[g]
            mu, var = v.mean() if len(v) else 0.0, v.var(unbiased=True) if len(v) > 1 else 0.0
            if o["per_class"] and len(v) < 2:
                mu, var = 0.0, 1.0
            self.mu[j], self.var[j] = e * self.mu[j] + (1 - e) * mu, e * self.var[j] + (1 - e) * var
        mu, var = (self.mu[arg], self.var[arg]) if o["per_class"] else (self.mu[0], self.var[0])
        w = torch.exp(-(torch.clamp(top - mu, max=0.0) ** 2) / (2 * var / o["n_sigma"] ** 2).clamp_min(1e-12))
        return ce(zl, self.y(b["L"])).mean() + o["lambda_u"] * self.unsup(pu, self.lg(P, "S", b["S"]), w, o["temperature"])


class FreeMatch(Ref):
    def __init__(self, *a):
        super().__init__(*a)
        self.pm = torch.full((self.K,), 1 / self.K, dtype=torch.float64)
        self.hist, self.tp = self.pm.clone(), 1 / self.K

    def loss(self, P, b, t, epoch):
        o, e = self.o, self.o["ema_p"]
        pu = torch.softmax(self.weak(P, b), 1)
        d, arg = pu.detach().to(torch.float64), clear_argmax(pu)
        top = d.max(1).values
        self.tp = e * self.tp + (1 - e) * float(top.quantile(0.8) if o["use_quantile"] else top.mean())
        if o["clip_thresh"]:
            self.tp = min(max(self.tp, 0.0), 0.95)
        self.pm = e * self.pm + (1 - e) * d.mean(0)
        h = torch.bincount(arg, minlength=self.K).to(torch.float64)
        self.hist = e * self.hist + (1 - e) * h / h.sum()
        m = at_least(top, self.tp * (self.pm / self.pm.max())[arg])
        zs = self.lg(P, "S", b["S"])
        out = ce(self.lg(P, "L", b["L"]), self.y(b["L"])).mean() + o["lambda_u"] * self.unsup(pu, zs, m.to(zs.dtype), o["temperature"])
        if m.sum() > 0:
            ps = torch.softmax(zs[m.bool()], 1)
            hs = torch.bincount(clear_argmax(ps), minlength=self.K).to(torch.float64)
            hs = hs / hs.sum()
            inv = lambda v: torch.where(v > 0, 1 / v, torch.zeros_like(v))  # noqa: E731
            a, s = self.pm * inv(self.hist), ps.mean(0) * inv(hs)
            a, s = a / a.sum(), s / s.sum().clamp_min(1e-12)
            out = out + o["lambda_e"] * (a * torch.log(s + 1e-12)).sum()
        return out


class CoMatch(Ref):
    needs = ("L", "W", "S", "S2")

    def __init__(self, *a):
        super().__init__(*a)
        self.bank, self.da, self.slot, self.dslot = {}, {}, 0, 0

    def unit(self, f):
        return f / f.norm(dim=1, keepdim=True).clamp_min(1e-12)

    def loss(self, P, b, t, epoch):
        o, T = self.o, self.o["temperature"]
        att = not o["detach_target"] and o["use_cat"]
        zl, Q = self.lg(P, "L", b["L"]), P if att else det(P)
        fw = feats(Q, self.x("W", b["W"]))
        pw = torch.softmax(head(Q, fw) / T, 1)
        if o["dist_align"] and o["da_len"] > 0:
            self.da[self.dslot % o["da_len"]] = pw.detach().mean(0)
            self.dslot += 1
            pm = torch.stack(list(self.da.values())).mean(0)
            target = torch.full((self.K,), 1 / self.K, dtype=pw.dtype) if o["dist_uniform"] else torch.softmax(zl.detach(), 1).mean(0)
            pw = pw * (target / pm.clamp_min(1e-6))
            pw = pw / pw.sum(1, keepdim=True)
        fw, sm = self.unit(fw), pw
        if self.bank and len(self.bank) >= o["min_queue_fill"] and o["smoothing_alpha"] < 1:
            bf, bp = (torch.stack([v[i] for v in self.bank.values()]) for i in (0, 1))
            aff = torch.exp(fw @ bf.T / T)
            sm = o["smoothing_alpha"] * pw + (1 - o["smoothing_alpha"]) * (aff / aff.sum(1, keepdim=True)) @ bp
        m = at_least(sm.max(1).values, o["p_cutoff"])
        q = sm @ sm.T
        eye = torch.eye(len(q), dtype=q.dtype)
        q = q * (1 - eye) + eye
        if o["contrast_p_cutoff"] > 0:
            near(q.detach() + eye, o["contrast_p_cutoff"])
            q = q * (q.detach() >= o["contrast_p_cutoff"])
        q = q / q.sum(1, keepdim=True)
        fl = self.unit(feats(det(P), self.x("L", b["L"])))
        hot = F.one_hot(self.y(b["L"]), self.K).to(pw.dtype)
        entries = [(fw[i].detach(), pw[i].detach()) for i in range(len(fw))] + [(fl[i], hot[i]) for i in range(len(fl))]
        for e in entries[: o["queue_size"]]:
            self.bank[self.slot % o["queue_size"]] = e
            self.slot += 1
        f0, f1 = self.unit(feats(P, self.x("S", b["S"]))), self.unit(feats(P, self.x("S2", b["S2"])))
        z0 = self.lg(P, "S", b["S"])
        lu = ce(z0, clear_argmax(sm)) if o["hard_label"] else soft_ce(sm, z0)
        sim = torch.exp(f0 @ f1.T / T)
        con = -(torch.log(sim / sim.sum(1, keepdim=True) + 1e-7) * q).sum(1).mean()
        return ce(zl, self.y(b["L"])).mean() + o["lambda_u"] * (lu * m).sum() / m.sum().clamp_min(1.0) + o["lambda_c"] * con


class ADSH(Ref):
    def __init__(self, *a):
        super().__init__(*a)
        self.score, self.epoch = torch.full((self.K,), float(self.o["p_cutoff"]), dtype=torch.float64), -1

    def rescore(self, P):
        o = self.o
        maj = o["majority_class"]
        if maj is None:
            maj = int(torch.bincount(self.p.y, minlength=self.K).argmax())
        ids = list(range(self.p.nu))
        p = torch.softmax(torch.cat([self.lg(det(P), "W", ids[i : i + o["batch_size"]]) for i in range(0, len(ids), o["batch_size"])]), 1)
        arg, top = clear_argmax(p), p.max(1).values.to(torch.float64)
        near(top, o["p_cutoff"])
        by = [sorted(top[arg == k].tolist(), reverse=True) for k in range(self.K)]
        n = sum(v >= o["p_cutoff"] for v in by[maj])
        rho = n / len(by[maj]) if n else 1.0
        for k in range(self.K):
            if k != maj and by[k]:
                r = len(by[k]) * rho - 1
                if abs(r - math.floor(r) - 0.5) < 1e-9:
                    raise Ambiguous()
                self.score[k] = min(by[k][min(max(round(r), 0), len(by[k]) - 1)], o["p_cutoff"])
        self.score[maj] = o["p_cutoff"]

    def loss(self, P, b, t, epoch):
        o = self.o
        if epoch != self.epoch:
            self.epoch = epoch
            if epoch >= o["score_warmup_epochs"]:
                self.rescore(P)
        r = torch.softmax(self.weak(P, b), 1).detach() / self.score
        m = at_least(r.max(1).values, 1.0)
        zs = self.lg(P, "S", b["S"])
        return ce(self.lg(P, "L", b["L"]), self.y(b["L"])).mean() + o["lambda_u"] * (ce(zs, clear_argmax(r)) * m).mean()


class DASO(Ref):
    def __init__(self, *a):
        super().__init__(*a)
        self.T, self.q = None, [[] for _ in range(self.K)]
        self.mhat, self.acc, self.t = torch.full((self.K,), 1 / self.K, dtype=torch.float64), torch.zeros(self.K, dtype=torch.float64), 0

    @staticmethod
    def cos(a, c):
        return (a / a.norm(dim=1, keepdim=True).clamp_min(1e-12)) @ (c / c.norm(dim=1, keepdim=True).clamp_min(1e-12)).T

    def rep(self, P, x):
        return logits(P, x) if self.p.out == "tensor" else feats(P, x)

    def loss(self, P, b, t, epoch):
        o = self.o
        if self.T is None:
            self.T = det(P)
        Q = det(P) if o["detach_target"] else P
        fl = self.rep(self.T if o["use_ema"] else det(P), self.x("L", b["L"])).detach()
        for i, y in enumerate(self.y(b["L"]).tolist()):
            self.q[y].append(fl[i])
        self.q = [v[-o["queue_size"] :] for v in self.q]
        C = torch.stack([torch.stack(v).mean(0) if v else torch.zeros_like(fl[0]) for v in self.q])
        xw, xs = self.x("W", b["W"]), self.x("S", b["S"])
        ph = torch.softmax(logits(Q, xw), 1)
        qh = torch.softmax(self.cos(self.rep(Q, xw), C) / o["t_proto"], 1)
        pre = t < o["pretrain_steps"]
        pp = ph
        if not pre:
            v = torch.full((len(ph),), float(o["interp_alpha"]), dtype=ph.dtype)
            if o["dist_aware"]:
                w = self.mhat.clamp_min(1e-12) ** (1 / o["t_dist"])
                v = (w / w.max())[clear_argmax(ph)].to(ph.dtype)
            pp = (1 - v[:, None]) * ph + v[:, None] * qh
        m, zs = at_least(pp.max(1).values, o["p_cutoff"]), logits(P, xs)
        lu = ce(zs, clear_argmax(pp)) if o["hard_label"] else soft_ce(pp, zs)
        out = ce(self.lg(P, "L", b["L"]), self.y(b["L"])).mean() + o["lambda_u"] * (lu * m).sum() / m.sum().clamp_min(1.0)
        if not pre and o["lambda_align"]:
            qs = torch.softmax(self.cos(self.rep(P, xs), C) / o["t_proto"], 1)
            out = out + o["lambda_align"] * -(qh * torch.log(qs.clamp_min(1e-12))).sum(1).mean()
        self.acc += torch.bincount(clear_argmax(pp), minlength=self.K)
        if (t + 1) % o["dist_update_period"] == 0:
            self.mhat, self.acc = self.acc / self.acc.sum(), torch.zeros(self.K, dtype=torch.float64)
        return out

    def after(self, st, b):
        d = self.o["ema_decay"]
        self.T = {n: d * v + (1 - d) * st.post[n] for n, v in self.T.items()}


REFS = dict(
    pi_model=PiModel, mean_teacher=MeanTeacher, temporal_ensembling=Temporal, uda=UDA, fixmatch=FixMatch, defixmatch=DeFixMatch, flexmatch=FlexMatch,
    adamatch=AdaMatch, softmatch=SoftMatch, free_match=FreeMatch, comatch=CoMatch, adsh=ADSH, daso=DASO,
)  # fmt: skip
