"""P15: ACER's targets, corrections, trust region and average policy."""
import copy
import warnings

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from pbt import agents as A
from pbt.core import HarnessError, Sub, Violation, require, require_close, require_eq, rng, seed_all
from pbt.gens import pick, flag, seeds, sized_list, spread
from pbt.props.p12 import apply_step, compare
from pbt.props.p14 import poke, snap, unchanged

import pfrl
from pfrl import replay_buffers
from pfrl.agents import ACER
from pfrl.agents.acer import (ACERContinuousActionHead, ACERDiscreteActionHead,
                              compute_loss_with_kl_constraint)

warnings.filterwarnings("ignore", category=UserWarning)

RULE = """A case of 'history' is a history of act/observe calls with terminations, interruptions and
interleaved evaluation for a discrete, continuous or recurrent ACER model with random coefficients;
every optimizer step (online or from replay) is compared with a reference that recomputes the
retrace targets, importance ratios, projection and gradients from the recorded transitions.
Non-trivial: at least one update used two or more transitions. A case of 'trust' is a pair of
distributions, a gradient and a limit; non-trivial: the projection is active."""
ASSUMPTIONS = [
    "continuous policies draw a controlled noise, so that the sampled bias correction is determined",
    "the divergence is linearised in the distribution's parameters (normalised logits; mean and "
    "scale), as implemented and documented",
    "float32 comparison: 2e-3 of the largest change per optimizer step",
]


class Steps(torch.optim.SGD):
    """SGD which remembers the parameters after every step."""

    def __init__(self, params, lr):
        super().__init__(params, lr=lr)
        self.after = []

    def step(self, closure=None):
        super().step()
        self.after.append([p.detach().clone() for g in self.param_groups for p in g["params"]])


class Buf(replay_buffers.EpisodicReplayBuffer):
    def __init__(self, capacity=None):
        super().__init__(capacity)
        self.sampled = []

    def sample_episodes(self, n, max_len=None):
        out = super().sample_episodes(n, max_len)
        self.sampled.append((n, max_len, out))
        return out


NOISE = [torch.zeros(2)]


class FixedNormal(torch.distributions.Normal):
    """Normal distribution whose samples use the noise of the moment."""

    def sample(self, sample_shape=torch.Size()):
        with torch.no_grad():
            return self.loc + self.scale * NOISE[0]


class GaussPi(nn.Module):
    def __init__(self):
        super().__init__()
        self.l1, self.l2 = nn.Linear(3, 3), nn.Linear(3, 4)

    def forward(self, x):
        z = self.l2(torch.tanh(self.l1(x)))
        return torch.distributions.Independent(
            FixedNormal(z[:, :2], nn.functional.softplus(z[:, 2:]) + 0.3), 1)


class CatPi(nn.Module):
    def __init__(self, inp):
        super().__init__()
        self.l1 = nn.Linear(inp, 3)

    def forward(self, x):
        return torch.distributions.Categorical(logits=self.l1(x))


class QHead(nn.Module):
    def __init__(self, inp):
        super().__init__()
        self.l1 = nn.Linear(inp, 3)

    def forward(self, x):
        return pfrl.action_value.DiscreteActionValue(self.l1(x))


def make_model(kind):
    if kind == "discrete":
        return nn.Sequential(nn.Linear(3, 4), nn.Tanh(),
                             ACERDiscreteActionHead(CatPi(4), QHead(4)))
    if kind == "recurrent":
        return pfrl.nn.RecurrentSequential(
            nn.Linear(3, 3), nn.Tanh(), nn.GRU(3, 3),
            ACERDiscreteActionHead(CatPi(3), QHead(3)))
    return ACERContinuousActionHead(
        GaussPi(), nn.Sequential(nn.Linear(3, 3), nn.Tanh(), nn.Linear(3, 1)), A.SAQ(), n=2)


class Out:
    """Reference outputs of a model at one state."""

    def __init__(self, kind, m, x, rs):
        x = torch.tensor(x)[None]
        self.kind = kind
        if kind == "continuous":
            z = m.pi.l2(torch.tanh(m.pi.l1(x)))
            self.loc, self.scale = z[:, :2], nn.functional.softplus(z[:, 2:]) + 0.3
            self.params = (self.loc, self.scale)
            self.v = m.v(x).reshape(())
            self.m, self.x, self.rs = m, x, None
            return
        if kind == "discrete":
            h, head, self.rs = torch.tanh(m[0](x)), m[2], None
        else:
            lin, _, rnn, head = m.children() if len(list(m.children())) == 4 else m._layers
            o, self.rs = rnn(torch.tanh(lin(x))[None], rs)
            h = o[0]
        self.logits = torch.log_softmax(head.pi.l1(h), dim=1)
        self.params = (self.logits,)
        self.q = head.q.l1(h)
        self.v = (self.logits.exp() * self.q).sum()

    def log_prob(self, a):
        if self.kind == "continuous":
            return (-0.5 * ((a - self.loc) / self.scale) ** 2 - torch.log(self.scale)
                    - 0.5 * np.log(2 * np.pi)).sum()
        return self.logits[0, int(a)]

    def entropy(self):
        if self.kind == "continuous":
            return (torch.log(self.scale) + 0.5 + 0.5 * np.log(2 * np.pi)).sum()
        return -(self.logits.exp() * self.logits).sum()

    def sample(self):
        return (self.loc + self.scale * NOISE[0]).detach()

    def Q(self, a):
        if self.kind == "continuous":
            adv = self.m.adv((self.x, torch.as_tensor(a).reshape(1, -1))).reshape(())
            return self.v + adv - self.m.adv((self.x, self.sample())).reshape(())
        return self.q[0, int(a)]

    def kl_from(self, avg):
        """KL(avg || self), differentiable in self.params."""
        if self.kind == "continuous":
            s0, s1 = avg.scale.detach(), self.scale
            return (torch.log(s1 / s0) + (s0 ** 2 + (avg.loc.detach() - self.loc) ** 2)
                    / (2 * s1 ** 2) - 0.5).sum()
        p = avg.logits.detach()
        return (p.exp() * (p - self.logits)).sum()


def clip_weight(c, rho_inv):
    return max(0.0, 1 - c * rho_inv)


def pi_loss(case, o, avg, mu, a, adv, act_adv=None):
    """Policy loss of one step; mu is None on policy."""
    c = case["threshold"]
    lp = o.log_prob(a)
    if mu is None:
        loss = -lp * adv
    else:
        rho = float(torch.exp(lp - mu.log_prob(a)))
        loss = -(rho if c is None else min(c, rho)) * lp * adv
        if c is not None:
            v = float(o.v)
            if o.kind == "continuous":
                s = o.sample()
                w = clip_weight(c, float(torch.exp(mu.log_prob(s) - o.log_prob(s))))
                if w > 0:
                    loss = loss - w * o.log_prob(s) * (float(o.Q(s)) - v)
            else:
                for b in range(3):
                    w = clip_weight(c, float(torch.exp(mu.logits[0, b] - o.logits[0, b])))
                    loss = loss - w * float(o.logits[0, b].exp()) * o.logits[0, b] * (
                        float(o.q[0, b]) - v)
    active = False
    if case["trust"]:
        g = torch.autograd.grad(loss, o.params, retain_graph=True, allow_unused=True)
        g = [torch.zeros_like(p) if x is None else x for x, p in zip(g, o.params)]
        k = torch.autograd.grad(-o.kl_from(avg), o.params, retain_graph=True)
        kg = sum(float((x * y).sum()) for x, y in zip(k, g))
        kk = sum(float((x * x).sum()) for x in k)
        f = max(0.0, (kg - case["delta"]) / kk) if kk > 0 else 0.0
        active = f > 0
        loss = sum((p * (x - f * y)).sum() for p, x, y in zip(o.params, g, k))
    return loss - case["beta"] * o.entropy(), active


def step_loss(case, m, avg_m, seq, rs, avg_rs, off):
    """Loss of a sequence of recorded transitions; rs/avg_rs are the starting recurrent states."""
    kind = case["kind"]
    outs, avgs = [], []
    for t in seq:
        o = Out(kind, m, t["state"], rs)
        rs = o.rs
        with torch.no_grad():
            b = Out(kind, avg_m, t["state"], avg_rs)
            avg_rs = b.rs
        outs.append(o)
        avgs.append(b)
    if seq[-1]["done"]:
        R = 0.0
    else:
        with torch.no_grad():
            R = float(Out(kind, m, seq[-1]["next_state"], rs).v)
    q_ret = q_opc = R
    lpi = lq = 0.0
    info = set()
    for t, o, b in reversed(list(zip(seq, outs, avgs))):
        a = torch.as_tensor(np.asarray(t["action"]))
        mu = t["mu"] if off else None
        rho = float(torch.exp(o.log_prob(a) - mu.log_prob(a))) if off else 1.0
        q_ret = t["reward"] + case["gamma"] * q_ret
        q_opc = t["reward"] + case["gamma"] * q_opc
        v = float(o.v)
        lp, act = pi_loss(case, o, b, mu, a, (q_opc if case["opc"] else q_ret) - v)
        if act:
            info.add("trust-region-active")
        if off and case["threshold"] is not None and rho > case["threshold"]:
            info.add("ratio-truncated")
        if off and rho < 1:
            info.add("ratio-below-1")
        lpi = lpi + lp
        Q = o.Q(a)
        lq = lq + 0.5 * (Q - q_ret) ** 2
        Qf = float(Q)
        if kind == "continuous":
            lq = lq + 0.5 * (o.v - (min(1.0, rho) * (q_ret - Qf) + v)) ** 2
            c = min(1.0, rho ** (1 / 2))
        else:
            c = min(1.0, rho)
        q_ret = c * (q_ret - Qf) + v
        q_opc = q_opc - Qf + v
    loss = case["pi"] * lpi + case["q"] * lq
    if case["normalize"]:
        loss = loss / len(seq)
    return loss, info


def run(case):
    r = rng(case["seed"])
    seed_all(case["seed"])
    kind, T, lr = case["kind"], case["steps"], case["lr"]
    rec = kind == "recurrent"
    model = A.randomize(make_model(kind), case["seed"], case["scale"])
    model.share_memory()
    opt = Steps(model.parameters(), lr)
    buf = Buf() if case["replay"] else None
    ag = ACER(model, opt, t_max=T, gamma=case["gamma"], replay_buffer=buf, beta=case["beta"],
              pi_loss_coef=case["pi"], Q_loss_coef=case["q"], use_trust_region=case["trust"],
              trust_region_alpha=case["alpha"], trust_region_delta=case["delta"],
              truncation_threshold=case["threshold"],
              disable_online_update=case["no_online"] and case["replay"],
              n_times_replay=case["n_replay"], replay_start_size=case["start"],
              normalize_loss_by_steps=case["normalize"], max_grad_norm=case["max_norm"],
              recurrent=rec, use_Q_opc=case["opc"])
    online = not (case["no_online"] and case["replay"])
    ref, avg = copy.deepcopy(model), copy.deepcopy(model)
    before = snap(model)
    seg, ep, nt, labels, k = [], [], False, set(), 0
    stored = 0
    known = {}
    rs = avg_rs = seg_rs = seg_avg_rs = None

    def one_update(seq, srs, sars, off, what):
        nonlocal before
        loss, info = step_loss(case, ref, avg, seq, srs, sars, off)
        labels.update(info)
        apply_step(ref, loss, lr, case["max_norm"])
        require(opt.after, "%s: no optimizer step", what)
        got = opt.after.pop(0)
        size = max(float((b - p.detach()).abs().max()) for b, p in zip(before, ref.parameters()))
        big = max(float(p.abs().max()) for p in got)
        if not np.isfinite(big) or big > 50:
            raise Diverged
        for (n, q), g, b in zip(ref.named_parameters(), got, before):
            require_close(g - b, q.detach() - b, "%s: change of %s" % (what, n), rtol=2e-3,
                          atol=1e-5, scale=max(size, 1e-2))
        with torch.no_grad():
            for p, g in zip(ref.parameters(), got):
                p.copy_(g)
            for p, g in zip(avg.parameters(), got):
                p.mul_(case["alpha"]).add_((1 - case["alpha"]) * g)
        before = got

    class Diverged(Exception):
        pass

    gen = A.drive(ag, 1, case["rows"], r, True)
    try:
        while True:
            NOISE[0] = torch.tensor(r.randn(2).astype(np.float32))
            try:
                what, step = next(gen)
            except StopIteration:
                break
            t = step[0]
            if what == "acted":
                unchanged(model, before, "ACER shared parameters changed by acting")
                with torch.no_grad():
                    o = Out(kind, ref, t["state"], rs)
                    b = Out(kind, avg, t["state"], avg_rs)
                if not seg:
                    seg_rs, seg_avg_rs = rs, avg_rs
                rs, avg_rs, t["mu"] = o.rs, b.rs, o
                known[A.key(t["state"])] = t
                if case["rows"][k] & 64:
                    poke(ag, 1, rng(case["seed"] + k), True)
                    labels.add("evaluated")
                k += 1
                continue
            seg.append(t)
            ep.append(t)
            if t["done"] or t["reset"]:
                stored += len(ep)
                ep = []
            if not (len(seg) == T or t["done"] or t["reset"]):
                require(not opt.after, "ACER updated inside a segment")
                unchanged(model, before, "ACER shared parameters changed inside a segment")
                continue
            if online:
                one_update(seg, seg_rs, seg_avg_rs, False, "ACER online update")
                nt = nt or len(seg) >= 2
                labels.add("terminal" if t["done"] else "cut")
            n = case["n_replay"] if buf is not None and stored >= case["start"] else 0
            if buf is not None:
                require_eq(len(buf.sampled), n, "number of replayed episodes (%d stored "
                           "transitions, start size %d)" % (stored, case["start"]))
                for cnt, ml, eps in buf.sampled:
                    require(len(eps) == 1 and len(eps[0]) <= T, "replayed %d episodes of length "
                            "%s, t_max %d", len(eps), [len(e) for e in eps], T)
                    seq = []
                    for u in eps[0]:
                        w = known.get(A.key(u["state"]))
                        require(w is not None, "replayed an unknown state")
                        require(np.array_equal(u["action"], w["action"]) and u["reward"] == w[
                            "reward"] and bool(u["is_state_terminal"]) == w["done"] and A.key(
                                u["next_state"]) == A.key(w["next_state"]),
                                "replayed transition %s was not the one lived through", u)
                        seq.append(w)
                    one_update(seq, None, None, True, "ACER replay update")
                    labels.add("replayed")
                    nt = nt or len(seq) >= 2
                buf.sampled.clear()
            require(not opt.after, "ACER made %d unexpected optimizer steps" % len(opt.after))
            for p, q in zip(model.parameters(), ag.model.parameters()):
                require(torch.equal(p.detach(), q.detach()),
                        "local model differs from the shared model after an update")
            for (n_, p), q in zip(ag.shared_average_model.named_parameters(), avg.parameters()):
                require_close(p, q, "average model's %s" % n_, rtol=1e-4, atol=1e-5)
            seg = []
            if t["done"] or t["reset"]:
                rs = avg_rs = None
    except Diverged:
        labels.add("diverged")
    return sorted(labels) + (["nontrivial"] if nt else []) + [kind]


def strategy():
    row = st.one_of(st.just(0), st.just(0), spread(0, 127).map(lambda x: x & 0x43))
    return st.fixed_dictionaries(dict(
        seed=seeds, kind=pick(["discrete", "continuous", "recurrent"]),
        steps=spread(1, 4), rows=sized_list(row, 3, 18), gamma=pick([0.9, 1.0, 0.5]),
        beta=pick([0.01, 0.0, 0.3]), pi=pick([1.0, 0.5]),
        q=pick([0.5, 1.0]), trust=pick([True, True, False]),
        alpha=pick([0.99, 0.5, 0.9, 0.999, 0.0]), delta=pick([1.0, 0.1, 0.01]),
        threshold=pick([10.0, 1.0, 0.5, None, 100.0]), no_online=flag,
        replay=pick([True, True, False]), n_replay=pick([2, 1, 3, 0]), start=spread(1, 4),
        normalize=flag, max_norm=pick([None, 0.5, 40.0]),
        opc=flag, lr=pick([0.1, 0.3]),
        scale=pick([0.4, 0.8])))


# ------------------------------------------------------------------ projection
def run_trust(case):
    r = rng(case["seed"])
    T = lambda *s: torch.tensor(r.randn(*s).astype(np.float32))  # noqa: E731
    n = case["n"]
    if case["gauss"]:
        loc, sc = T(1, n).requires_grad_(), (T(1, n).abs() + 0.3).requires_grad_()
        d = torch.distributions.Independent(torch.distributions.Normal(loc, sc), 1)
        o = torch.distributions.Independent(torch.distributions.Normal(
            T(1, n), T(1, n).abs() + 0.3), 1)
        ps = [loc, sc]
        gs = [T(1, n) * case["gscale"], T(1, n) * case["gscale"]]
        loss = (loc * gs[0]).sum() + (sc * gs[1]).sum()
        s0, s1, m0, m1 = o.base_dist.scale, sc, o.base_dist.loc, loc
        ks = [((m1 - m0) / s1 ** 2).detach(), (1 / s1 - (s0 ** 2 + (m0 - m1) ** 2) / s1 ** 3)
              .detach()]   # gradient of KL(other || distribution)
    else:
        base = T(1, n).requires_grad_()
        d = torch.distributions.Categorical(logits=base)
        o = torch.distributions.Categorical(logits=T(1, n))
        gs = [T(1, n) * case["gscale"]]
        loss = (d.logits * gs[0]).sum()
        ks = [-o.probs]
        ps = [d.logits]
    loss = loss.reshape(1)
    new, kl = compute_loss_with_kl_constraint(d, o, loss, case["delta"])
    require_eq(tuple(new.shape), tuple(loss.shape), "shape of the constrained loss")
    require_close(kl, torch.distributions.kl_divergence(o, d), "reported divergence", atol=1e-5) \
        if np.ndim(kl) else require_close([kl], torch.distributions.kl_divergence(o, d).reshape(
            1), "reported divergence", atol=1e-5)
    z = torch.autograd.grad(new, ps)
    # ascent directions are minus the loss gradients
    zf = -torch.cat([x.reshape(-1) for x in z]).double()
    gf = -torch.cat([x.reshape(-1) for x in gs]).double()
    kf = torch.cat([x.reshape(-1) for x in ks]).double()
    size = float(gf.norm() * kf.norm()) + 1e-6
    lin = float(kf.dot(zf))
    require(lin <= case["delta"] + 1e-4 * size, "linearised divergence change %.6g exceeds the "
            "limit %.6g", lin, case["delta"])
    if float(kf.dot(gf)) <= case["delta"] - 1e-4 * size:
        require_close(zf, gf, "gradient although the limit is not reached", rtol=1e-5)
        return []
    diff = gf - zf
    require_close(diff, kf * (float(diff.dot(kf)) / float(kf.dot(kf))),
                  "the correction is not along the divergence's gradient", rtol=1e-4,
                  scale=float(gf.norm()) + 1e-6)
    require(abs(lin - case["delta"]) <= 1e-3 * size + 1e-4, "the corrected gradient changes the "
            "divergence by %.6g, limit %.6g: not the closest one", lin, case["delta"])
    return ["nontrivial"]


def trust_strategy():
    return st.fixed_dictionaries(dict(
        seed=seeds, n=spread(1, 5), gauss=flag, gscale=pick([1.0, 0.01, 20.0]),
        delta=pick([1.0, 0.1, 0.01, 0.0])))


QUICK_SCALE = 2.5

SUBS = [
    Sub("history", strategy, run, quick=400, shards=5),
    Sub("trust", trust_strategy, run_trust, quick=400),
]
