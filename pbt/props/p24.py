"""P24: action-value objects agree with their definition of value and greed."""
import warnings

import gym
import numpy as np
import torch
import torch.nn.functional as F
from hypothesis import strategies as st
from torch import nn

from pbt import agents as A
from pbt.core import Sub, require, require_close, require_eq, rng, seed_all
from pbt.gens import flag, pick, seeds, spread

from pfrl import action_value as av_mod
from pfrl import nn as pnn
from pfrl import q_functions as qf
from pfrl.agents import iqn as iqn_mod

warnings.filterwarnings("ignore")

RULE = """'values': action-value objects of the five forms over generated value tensors (ties, large, equal and negative
values, batches of 1-5, 1-6 actions), read in a generated order, sliced, with generated actions of several integer types,
against per-element numpy loops; gradients of value and maximum against the one-hot derivative.
'heads': Q-function networks of generated sizes with random weights (also after being moved to a copy by state_dict) against the
defining formula in float64, value by value and for gradients with respect to the input; 'conv' the same for the convolutional
dueling heads. Non-trivial: more than one batch element and, for discrete forms, more than one action."""
ASSUMPTIONS = ["for bounded quadratic values the greedy action is the unconstrained optimum clipped to the bounds; its "
               "value is the reported maximum (a better action can exist when the optimum is outside the bounds)"]

KINDS = ["discrete", "distributional", "quantile", "quadratic", "single"]


@st.composite
def values(draw):
    return dict(kind=draw(pick(KINDS)), B=draw(pick([1, 2, 3, 4, 5, 70])), n=draw(pick([1, 2, 3, 4, 5, 6, 18, 300])),
                m=draw(pick([2, 3, 4, 5, 6, 7, 51])), scale=draw(pick([1.0, 0.0, 100.0, 1e5])),
                rnd=draw(pick([None, 0])), seed=draw(seeds), order=draw(spread(0, 5)),
                dt=draw(pick(["int64", "int32"])), bounds=draw(pick(
                    ["none", "both", "low", "high", "scalar", "tight"])),
                cut=[draw(spread(0, 4)), draw(spread(1, 5))], beta=draw(pick([0.0, 1.0, -2.0])))


def discrete_like(c, r):
    B, n, m = c["B"], c["n"], c["m"]
    x = r.randn(B, n) * c["scale"]
    if c["rnd"] is not None:
        x = np.round(x / max(c["scale"], 1e-9)) * c["scale"]
    if c["kind"] == "discrete":
        leaf = torch.tensor(x, dtype=torch.float32, requires_grad=True)
        return leaf, av_mod.DiscreteActionValue(leaf), leaf.detach().numpy().astype(float), None
    if c["kind"] == "quantile":
        z = x[:, None, :] + r.randn(B, m, n)
        leaf = torch.tensor(z, dtype=torch.float32, requires_grad=True)
        zz = leaf.detach().numpy().astype(float)
        return leaf, av_mod.QuantileDiscreteActionValue(leaf), zz.mean(1), zz
    d = r.dirichlet(np.ones(m) * 0.5, size=(B, n))
    if c["rnd"] is not None:
        d[:] = d[:, :1]      # all actions alike
    z = np.sort(r.randn(m)) * max(c["scale"], 1e-3)
    leaf = torch.tensor(d, dtype=torch.float32, requires_grad=True)
    zt = torch.tensor(z, dtype=torch.float32)
    dd = leaf.detach().numpy().astype(float)
    return (leaf, av_mod.DistributionalDiscreteActionValue(leaf, zt),
            (dd * zt.numpy().astype(float)).sum(2), dd)


def check_discrete(av, q, full, kind, acts, acts2, beta, order):
    B, n = q.shape
    s = max(1.0, float(np.abs(q).max()))
    if kind == "distributional":        # rounding is relative to the terms of the sums
        s = max(s, float(av.z_values.abs().max()))
    elif kind == "quantile":
        s = max(s, float(np.abs(full).max()))
    kw = dict(rtol=4e-6, atol=1e-7, scale=s)
    at = torch.as_tensor(acts)
    at2 = torch.as_tensor(acts2)
    want = np.array([q[i, a] for i, a in enumerate(acts)])
    want2 = np.array([q[i, a] for i, a in enumerate(acts2)])

    def greedy():
        g = av.greedy_actions
        require(not g.requires_grad, "greedy actions carry a gradient")
        g = g.numpy()
        require_eq(g.shape, (B,), "shape of the greedy actions")
        require(np.issubdtype(g.dtype, np.integer) and (g >= 0).all() and (g < n).all(),
                "greedy actions %s for %d actions", g, n)
        require_close(np.array([q[i, a] for i, a in enumerate(g)]), q.max(1),
                      "value of the greedy action", **kw)

    def mx():
        require_close(av.max, q.max(1), "max", **kw)

    def ev():
        require_close(av.evaluate_actions(at), want, "evaluate_actions", **kw)

    def adv():
        require_close(av.compute_advantage(at), want - q.max(1), "compute_advantage",
                      rtol=1e-5, atol=1e-6, scale=s)
        require_close(av.compute_double_advantage(at, at2), want - want2,
                      "compute_double_advantage", rtol=1e-5, atol=1e-6, scale=s)

    def expect():
        x = beta * q
        p = np.exp(x - x.max(1, keepdims=True))
        p /= p.sum(1, keepdims=True)
        if s < 1000:
            require_close(av.compute_expectation(beta), (p * q).sum(1), "compute_expectation",
                          rtol=1e-3 if s > 10 else 1e-4, atol=1e-5, scale=s)

    def parts():
        if kind == "quantile":
            z = av.evaluate_actions_as_quantiles(at)
            require_close(z, np.stack([full[i, :, a] for i, a in enumerate(acts)]),
                          "evaluate_actions_as_quantiles", rtol=0, atol=0)
        if kind == "distributional":
            z = av.evaluate_actions_as_distribution(at)
            require_close(z, np.stack([full[i, a] for i, a in enumerate(acts)]),
                          "evaluate_actions_as_distribution", rtol=0, atol=0)
            g = av.greedy_actions.numpy()
            require_close(av.max_as_distribution, np.stack([full[i, a] for i, a in enumerate(g)]),
                          "max_as_distribution", rtol=0, atol=0)
        require_close(av.q_values, q, "q_values", **kw)

    fs = [greedy, mx, ev, adv, expect, parts]
    for f in fs[order:] + fs[:order]:
        f()
    require_eq(av.n_actions, n, "n_actions")


def run_values(c):
    r = rng(c["seed"])
    B, n = c["B"], c["n"]
    kind = c["kind"]
    lo, hi = c["cut"]
    sl = slice(min(lo, B - 1), max(min(lo, B - 1) + 1, min(hi, B)))
    if kind in ("discrete", "distributional", "quantile"):
        leaf, av, q, full = discrete_like(c, r)
        acts = r.randint(0, n, B).astype(c["dt"])
        acts2 = r.randint(0, n, B).astype(c["dt"])
        check_discrete(av, q, full, kind, acts, acts2, c["beta"], c["order"])
        ix = r.randint(0, B, 3)
        for i in (sl, torch.as_tensor(ix)):
            j = i if isinstance(i, slice) else ix
            check_discrete(av[i], q[j], None if full is None else full[j], kind, acts[j],
                           acts2[j], c["beta"], (c["order"] + 1) % 6)
        # gradient of the value of each action, weighted per batch element
        w = r.randn(B)
        for what, val, sel in (("evaluate_actions", lambda a: a.evaluate_actions(
                torch.as_tensor(acts)), acts), ("max", lambda a: a.max, None)):
            leaf.grad = None
            leaf2, av2, _, _ = discrete_like(c, rng(c["seed"]))
            (val(av2) * torch.as_tensor(w, dtype=torch.float32)).sum().backward()
            g = leaf2.grad.numpy()
            s = av2.greedy_actions.numpy() if sel is None else sel
            want = np.zeros(g.shape)
            for b in range(B):
                if kind == "discrete":
                    want[b, s[b]] = w[b]
                elif kind == "quantile":
                    want[b, :, s[b]] = w[b] / c["m"]
                else:
                    want[b, s[b]] = w[b] * av2.z_values.numpy()
            require_close(g, want, "gradient of " + what, rtol=1e-5, atol=1e-6)
        # gradients of advantages and of whole distributions
        leaf2, av2, _, _ = discrete_like(c, rng(c["seed"]))
        base = leaf2.detach().numpy()
        sel = torch.as_tensor(acts)
        g1 = torch.autograd.grad(av2.evaluate_actions(sel).sum(), leaf2, retain_graph=True)[0]
        g2 = torch.autograd.grad(av2.max.sum(), leaf2, retain_graph=True)[0]
        g3 = torch.autograd.grad(av2.compute_advantage(sel).sum(), leaf2, retain_graph=True)[0]
        require_close(g3, g1 - g2, "gradient of the advantage", rtol=1e-4, atol=1e-5,
                      scale=1 + float(g1.abs().max()))
        w2 = r.randn(B, c["m"])
        for what in {"distributional": ["evaluate_actions_as_distribution", "max_as_distribution"],
                     "quantile": ["evaluate_actions_as_quantiles"]}.get(kind, []):
            z = getattr(av2, what)
            z, s = (z(sel), acts) if callable(z) else (z, av2.greedy_actions.numpy())
            g = torch.autograd.grad((z * torch.as_tensor(w2, dtype=z.dtype)).sum(), leaf2,
                                    retain_graph=True)[0]
            want = np.zeros(base.shape)
            for b in range(B):
                want[(b, s[b]) if kind == "distributional" else (b, slice(None), s[b])] = w2[b]
            require_close(g, want, "gradient of " + what, rtol=1e-5, atol=1e-6)
        require(any(p is leaf for p in av.params), "params does not hold the values")
        return {"kind:" + kind} | ({"nontrivial"} if B > 1 and n > 1 else set())
    k = min(n, 4)
    low, high = -np.ones(k, np.float32) * r.uniform(0.3, 1, k).astype(np.float32), np.ones(
        k, np.float32) * r.uniform(0.3, 1, k).astype(np.float32)
    if kind == "quadratic":
        mu = r.randn(B, k).astype(np.float32)
        L = np.tril(r.randn(B, k, k)) + np.eye(k) * 0.5
        P = (L @ L.transpose(0, 2, 1)).astype(np.float32)
        v = (r.randn(B, 1) * min(c["scale"], 100)).astype(np.float32)
        kw = {}
        b = c["bounds"]
        if b in ("both", "low", "tight"):
            kw["min_action"] = low if b != "tight" else low * 0
        if b in ("both", "high", "tight"):
            kw["max_action"] = high if b != "tight" else high * 0
        if b == "scalar":
            kw = dict(min_action=-0.4, max_action=1)
        lo_ = np.broadcast_to(kw.get("min_action", -np.inf), (k,)).astype(np.float32)
        hi_ = np.broadcast_to(kw.get("max_action", np.inf), (k,)).astype(np.float32)
        t = [torch.tensor(x, requires_grad=True) for x in (mu, P, v)]
        av = av_mod.QuadraticActionValue(*t, **kw)

        def val(u, ix):
            d = u.astype(float) - mu[ix].astype(float)
            return np.array([float(v[i, 0]) - 0.5 * d[m_] @ P[i].astype(float) @ d[m_]
                             for m_, i in enumerate(ix)])

        def check(av, ix):
            u = r.randn(len(ix), k).astype(np.float32) * 2
            u2 = r.randn(len(ix), k).astype(np.float32)
            g = av.greedy_actions.detach().numpy()
            gw = np.minimum(np.maximum(mu[ix], lo_), hi_)
            require_close(g, gw, "greedy action", rtol=0, atol=1e-6)
            s = 1 + float(np.abs(v).max()) + float(np.abs(val(u, ix)).max())
            kk = dict(rtol=1e-5, atol=1e-5, scale=s)
            require_close(av.evaluate_actions(torch.tensor(u)), val(u, ix), "evaluate_actions",
                          **kk)
            require_close(av.max, val(gw, ix), "max", **kk)
            require_close(av.compute_advantage(torch.tensor(u)), val(u, ix) - val(gw, ix),
                          "compute_advantage", **kk)
            require_close(av.compute_double_advantage(torch.tensor(u), torch.tensor(u2)),
                          val(u, ix) - val(u2, ix), "compute_double_advantage", **kk)
            inside = np.all((mu[ix] >= lo_) & (mu[ix] <= hi_), axis=1)
            require(np.all((val(u, ix) <= av.max.detach().numpy() + 1e-4 * s)[inside]),
                    "an action beats the maximum")
        check(av, np.arange(B))
        check(av[sl], np.arange(B)[sl])
        require(all(a is b_ for a, b_ in zip(av.params, t)), "params are not (mu, P, v)")
        return {"kind:" + kind, "bounds:" + b} | ({"nontrivial"} if B > 1 and k > 1 else set())
    # single action value
    wv = r.randn(k)
    best = r.randn(B, k).astype(np.float32)
    calls = []

    def evaluator(a):
        calls.append(a)
        return -((a - torch.as_tensor(best)) ** 2 * torch.as_tensor(np.abs(wv), dtype=torch.float32)
                 ).sum(1) + 3.0
    av = av_mod.SingleActionValue(evaluator, lambda: torch.as_tensor(best))
    u, u2 = r.randn(B, k).astype(np.float32), r.randn(B, k).astype(np.float32)

    def val(x):
        return -((x.astype(float) - best) ** 2 * np.abs(wv)).sum(1) + 3.0
    for i in range(4):
        j = (i + c["order"]) % 4
        if j == 0:
            require_close(av.max, val(best), "max")
        elif j == 1:
            require_close(av.evaluate_actions(torch.tensor(u)), val(u), "evaluate_actions")
        elif j == 2:
            require_close(av.compute_advantage(torch.tensor(u)), val(u) - val(best),
                          "compute_advantage")
            require_close(av.compute_double_advantage(torch.tensor(u), torch.tensor(u2)),
                          val(u) - val(u2), "compute_double_advantage")
        else:
            require_eq(av.greedy_actions.numpy(), best, "greedy action")
    return {"kind:single"} | ({"nontrivial"} if B > 1 else set())


# ------------------------------------------------------------------ Q-function networks
HEADS = ["FCStateQ", "DistFCStateQ", "SingleState", "DistSingle", "Quadratic", "FCSA", "FCBNSA",
         "LateBN", "Late", "SingleSA", "IQN", "RIQN", "DiscreteHead", "concat"]


@st.composite
def heads(draw):
    return dict(head=draw(pick(HEADS)), B=draw(spread(1, 5)), obs=draw(spread(1, 5)),
                n=draw(spread(1, 5)), hid=draw(spread(1, 6)), layers=draw(spread(0, 3)),
                atoms=draw(spread(2, 6)), seed=draw(seeds), bn_in=draw(flag), train=draw(flag),
                nonlin=draw(pick(["relu", "tanh"])), scale_mu=draw(flag), copy=draw(flag),
                amp=draw(pick([1.0, 10.0])))


class Ref:
    """float64 evaluation of a module's layers by their names."""

    def __init__(self, module):
        self.p = {k: v.detach().double() for k, v in module.state_dict().items()}

    def lin(self, name, x):
        return x @ self.p[name + ".weight"].t() + self.p[name + ".bias"]

    def bn(self, name, x, train, stats):
        if train:
            m, v = x.mean(0), x.var(0, unbiased=False)
            n = len(x)
            stats[name + ".running_mean"] = 0.9 * self.p[name + ".running_mean"] + 0.1 * m
            stats[name + ".running_var"] = (0.9 * self.p[name + ".running_var"]
                                            + 0.1 * v * n / (n - 1))
        else:
            m, v = self.p[name + ".running_mean"], self.p[name + ".running_var"]
        return (x - m) / torch.sqrt(v + 1e-5) * self.p[name + ".weight"] + self.p[name + ".bias"]

    def mlp(self, pre, x, layers, f):
        for i in range(layers):
            x = f(self.lin("%shidden_layers.%d" % (pre, i), x))
        return self.lin(pre + "output", x)

    def mlpbn(self, pre, x, layers, f, train, stats, norm_in, norm_out):
        if norm_in:
            x = self.bn(pre + "input_bn", x, train, stats)
        for i in range(layers):
            x = f(self.bn("%shidden_layers.%d.bn" % (pre, i),
                          self.lin("%shidden_layers.%d.linear" % (pre, i), x), train, stats))
        x = self.lin(pre + "output", x)
        if norm_out:
            x = self.bn(pre + "output_bn", x, train, stats)
        return x


def scramble(m, seed, amp=1.0):
    """Random parameters and batch normalization statistics."""
    g = torch.Generator().manual_seed(seed % 2 ** 31)
    with torch.no_grad():
        for k, v in m.state_dict().items():
            if not v.is_floating_point() or k.endswith("z_values"):
                continue
            x = torch.randn(v.shape, generator=g) * 0.6 * (amp if "output" in k else 1)
            v.copy_(x.abs() + 0.3 if k.endswith("running_var") else x)
    return m


def run_heads(c):
    r = rng(c["seed"])
    seed_all(c["seed"])
    B, obs, n, hid, L, h = c["B"], c["obs"], c["n"], c["hid"], c["layers"], c["head"]
    f = {"relu": torch.relu, "tanh": torch.tanh}[c["nonlin"]]
    fl = {"relu": F.relu, "tanh": torch.tanh}[c["nonlin"]]
    train = c["train"] and B > 1
    labels = {"head:" + h} | ({"nontrivial"} if B > 1 else set())
    box = gym.spaces.Box(-r.uniform(0.2, 2, n).astype(np.float32),
                         r.uniform(0.2, 2, n).astype(np.float32))
    stats = {}
    zs = np.sort(r.randn(c["atoms"])).astype(np.float32)

    def build():
        if h == "FCStateQ":
            return qf.FCStateQFunctionWithDiscreteAction(obs, n, hid, L, nonlinearity=fl)
        if h == "DistFCStateQ":
            return qf.DistributionalFCStateQFunctionWithDiscreteAction(
                obs, n, c["atoms"], -1.5, 2.5, hid, L, nonlinearity=fl)
        if h == "SingleState":
            return qf.SingleModelStateQFunctionWithDiscreteAction(nn.Linear(obs, n))
        if h == "DistSingle":
            return qf.DistributionalSingleModelStateQFunctionWithDiscreteAction(
                nn.Sequential(nn.Linear(obs, n * c["atoms"]), pnn.Lambda(
                    lambda x: torch.softmax(x.reshape(len(x), n, c["atoms"]), 2))), zs.copy())
        if h == "Quadratic":
            return qf.FCQuadraticStateQFunction(obs, n, hid, max(L, 1), box,
                                                scale_mu=c["scale_mu"])
        if h == "FCSA":
            return qf.FCSAQFunction(obs, n, hid, L, nonlinearity=fl)
        if h == "FCBNSA":
            return qf.FCBNSAQFunction(obs, n, hid, L, normalize_input=c["bn_in"], nonlinearity=fl)
        if h == "LateBN":
            return qf.FCBNLateActionSAQFunction(obs, n, hid, max(L, 1),
                                                normalize_input=c["bn_in"], nonlinearity=fl)
        if h == "Late":
            return qf.FCLateActionSAQFunction(obs, n, hid, max(L, 1), nonlinearity=fl)
        if h == "SingleSA":
            return qf.SingleModelStateActionQFunction(A_SA(obs, n))
        if h == "IQN":
            return A.iqn_net(obs, n, hid, c["atoms"])
        if h == "RIQN":
            return iqn_mod.RecurrentImplicitQuantileQFunction(
                psi=pnn.RecurrentSequential(nn.Linear(obs, hid), nn.Tanh(), nn.GRU(hid, hid)),
                phi=nn.Sequential(iqn_mod.CosineBasisLinear(c["atoms"], hid), nn.Tanh()),
                f=nn.Linear(hid, n))
        if h == "DiscreteHead":
            return nn.Sequential(nn.Linear(obs, n), qf.DiscreteActionValueHead())
        return nn.Sequential(pnn.ConcatObsAndAction(), nn.Linear(obs + n, 1))

    m = scramble(build(), c["seed"], c["amp"])
    if c["copy"]:
        m2 = build()
        m2.load_state_dict(m.state_dict())
        m = m2
    ref = Ref(m)
    m.train(train)
    before = {k: v.clone() for k, v in m.state_dict().items()}
    x = torch.tensor(r.randn(B, obs).astype(np.float32), requires_grad=True)
    u = torch.tensor(r.randn(B, n).astype(np.float32), requires_grad=True)
    X, U = x.detach().double().requires_grad_(), u.detach().double().requires_grad_()
    got = []      # (name, value, reference)
    if h in ("FCStateQ", "SingleState", "DiscreteHead"):
        q = (ref.mlp("model.", X, L, f) if h == "FCStateQ"
             else ref.lin("model" if h == "SingleState" else "0", X))
        got.append(("q values", m(x).q_values, q))
    elif h in ("DistFCStateQ", "DistSingle"):
        if h == "DistFCStateQ":
            y = ref.mlp("model.0.", X, L, f)
            z = torch.linspace(-1.5, 2.5, c["atoms"], dtype=torch.float64)
        else:
            y = ref.lin("model.0", X)
            z = torch.as_tensor(zs).double()
        d = torch.softmax(y.reshape(B, n, c["atoms"]), 2)
        o = m(x)
        got += [("atom probabilities", o.q_dist, d), ("q values", o.q_values, (d * z).sum(2)),
                ("atom values", o.z_values, z)]
    elif h == "Quadratic":
        y = X
        for i in range(max(L, 1)):
            y = torch.relu(ref.lin("hidden_layers.%d" % i, y))
        mu = ref.lin("mu", y)
        lo, hi = torch.as_tensor(box.low).double(), torch.as_tensor(box.high).double()
        if c["scale_mu"]:
            mu = lo + (torch.tanh(mu) + 1) / 2 * (hi - lo)
        dg = torch.exp(ref.lin("mat_diag", y))
        T = torch.diag_embed(dg)
        if n > 1:
            nd = ref.lin("mat_non_diag", y)
            T = T.clone()
            k = 0
            for i in range(n):
                for j in range(i):
                    T[:, i, j] = nd[:, k]
                    k += 1
        P = T @ T.transpose(1, 2)
        o = m(x)
        e = U - mu
        val = ref.lin("v", y)[:, 0] - 0.5 * torch.einsum("bi,bij,bj->b", e, P, e)
        got += [("mu", o.mu, mu), ("P", o.mat, P), ("Q(s, a)", o.evaluate_actions(u), val),
                ("greedy action", o.greedy_actions, torch.minimum(torch.maximum(mu, lo), hi))]
        g = o.greedy_actions.detach().numpy()
        require(np.all(g >= box.low - 1e-6) and np.all(g <= box.high + 1e-6),
                "the greedy action leaves the action space: %s", g)
    elif h == "FCSA":
        got.append(("Q(s, a)", m(x, u), ref.mlp("", torch.cat([X, U], 1), L, f)))
    elif h == "FCBNSA":
        got.append(("Q(s, a)", m(x, u), ref.mlpbn("", torch.cat([X, U], 1), L, f, train, stats,
                                                 c["bn_in"], False)))
    elif h == "LateBN":
        y = f(ref.mlpbn("obs_mlp.", X, 0, f, train, stats, c["bn_in"], True))
        got.append(("Q(s, a)", m(x, u), ref.mlp("mlp.", torch.cat([y, U], 1), max(L, 1) - 1, f)))
    elif h == "Late":
        y = f(ref.mlp("obs_mlp.", X, 0, f))
        got.append(("Q(s, a)", m(x, u), ref.mlp("mlp.", torch.cat([y, U], 1), max(L, 1) - 1, f)))
    elif h == "SingleSA":
        got.append(("Q(s, a)", m(x, u), ref.lin("model.l", torch.cat([X, U], 1))))
    elif h == "concat":
        got.append(("Q(s, a)", m((x, u)), ref.lin("1", torch.cat([X, U], 1))))
    else:
        taus = torch.as_tensor(r.uniform(0, 1, (B, 3)).astype(np.float32))
        nb = c["atoms"]
        basis = torch.cos(taus.double()[:, :, None] * torch.arange(1, nb + 1) * np.pi)
        if h == "IQN":
            y = torch.tanh(ref.lin("psi.0", X))
            o = m(x)(taus)
        else:
            packed = nn.utils.rnn.pack_sequence([x[i:i + 1] for i in range(B)])
            tau2av, _ = m(packed, None)
            o = tau2av(taus)
            g64 = nn.GRU(hid, hid).double()
            y = torch.tanh(X @ ref.p[first(ref.p, "psi", 0)].t() + ref.p[first(ref.p, "psi", 1)])
            g64.load_state_dict(dict(zip(["weight_ih_l0", "weight_hh_l0", "bias_ih_l0",
                                          "bias_hh_l0"], [v for k, v in ref.p.items()
                                                          if k.startswith("psi")][2:])))
            y = g64(y[None])[0][0]
        ph = torch.tanh(basis @ ref.p["phi.0.linear.weight"].t() + ref.p["phi.0.linear.bias"])
        q = ref.lin("f", y[:, None, :] * ph)
        got += [("quantiles", o.quantiles, q), ("q values", o.q_values, q.mean(1))]
    w = rng(c["seed"] + 1)
    for name, a, b in got:
        s = float(b.detach().abs().max()) if b.numel() else 1.0
        require_close(a, b, name, rtol=2e-4, atol=1e-5, scale=s)
        if not a.requires_grad or h == "RIQN" or (
                h in ("FCStateQ", "DistFCStateQ", "FCSA", "FCBNSA", "LateBN", "Late", "Quadratic")
                and (c["nonlin"] == "relu" or h == "Quadratic")):
            continue      # at a kink float32 and float64 may differ
        cw = torch.as_tensor(w.randn(*b.shape))
        ins = [x, u] if h in ("FCSA", "FCBNSA", "LateBN", "Late", "SingleSA", "concat") else [x]
        INS = [X, U][:len(ins)]
        ga = torch.autograd.grad((a * cw.float()).sum(), ins, retain_graph=True, allow_unused=True)
        gb = torch.autograd.grad((b * cw).sum(), INS, retain_graph=True, allow_unused=True)
        for i, (p, q_) in enumerate(zip(ga, gb)):
            p = torch.zeros_like(ins[i]) if p is None else p
            q_ = torch.zeros_like(INS[i]) if q_ is None else q_
            scale = float(q_.abs().max()) + s
            require_close(p, q_, "gradient of %s with respect to input %d" % (name, i),
                          rtol=3e-3 if stats else 1e-3, atol=1e-4, scale=scale)
    for k, v in m.state_dict().items():
        if k in stats:
            require_close(v, stats[k], "batch normalization statistics", rtol=1e-4)
        elif not k.endswith("num_batches_tracked"):
            require_eq(v.numpy(), before[k].numpy(), "%s after evaluation" % k)
    return labels


def first(p, pre, i):
    return [k for k in p if k.startswith(pre)][i]


class A_SA(nn.Module):
    def __init__(self, obs, n):
        super().__init__()
        self.l = nn.Linear(obs + n, 1)

    def forward(self, x, u):
        return self.l(torch.cat([x, u], 1))


# ------------------------------------------------------------------ convolutional heads
@st.composite
def convs(draw):
    return dict(head=draw(pick(["dueling", "dist", "large", "small"])), B=draw(spread(1, 3)),
                ch=draw(spread(1, 4)), n=draw(spread(1, 5)), atoms=draw(spread(2, 5)),
                seed=draw(seeds), act=draw(pick(["relu", "tanh", "elu"])), bias=draw(pick([0.1, 0.0])))


def run_convs(c):
    r = rng(c["seed"])
    seed_all(c["seed"])
    act = {"relu": torch.relu, "tanh": torch.tanh, "elu": F.elu}[c["act"]]
    kw = dict(n_input_channels=c["ch"], activation=act, bias=c["bias"])
    h, B, n, k = c["head"], c["B"], c["n"], c["atoms"]
    m = (qf.DuelingDQN(n, **kw) if h == "dueling" else
         qf.DistributionalDuelingDQN(n, k, -2.0, 3.0, **kw) if h == "dist" else
         pnn.LargeAtariCNN(n_output_channels=n, **kw) if h == "large" else
         pnn.SmallAtariCNN(n_output_channels=n, **kw))
    p = {kk: v.detach().double() for kk, v in m.state_dict().items()}
    pre = "conv_layers" if h in ("dueling", "dist") else "layers"
    strides = (4, 2, 1) if h != "small" else (4, 2)
    for i in range(len(strides)):
        require_close(p["%s.%d.bias" % (pre, i)], np.full(p["%s.%d.bias" % (pre, i)].shape,
                                                         c["bias"]), "initial bias", atol=1e-7)
    with torch.no_grad():
        for v in m.parameters():
            if v.ndim == 1:
                v.copy_(torch.as_tensor(r.randn(*v.shape) * 0.1))
            if v.shape[0] in (1, n, n * k, k):
                v.mul_(5)
    p = {kk: v.detach().double() for kk, v in m.state_dict().items()}
    x = torch.tensor(r.uniform(0, 1, (B, c["ch"], 84, 84)).astype(np.float32))
    o = m(x)
    y = x.double()
    for i, s in enumerate(strides):
        y = act(F.conv2d(y, p["%s.%d.weight" % (pre, i)], p["%s.%d.bias" % (pre, i)], stride=s))
    y = y.reshape(B, -1)

    def lin(name, z):
        return z @ p[name + ".weight"].t() + p[name + ".bias"]
    if h in ("large", "small"):
        require_close(o, act(lin("output", y)), "features", rtol=1e-3, atol=1e-4)
        return {"head:" + h} | ({"nontrivial"} if B > 1 else set())
    if h == "dueling":
        a = lin("a_stream.output", torch.relu(lin("a_stream.hidden_layers.0", y)))
        v = lin("v_stream.output", torch.relu(lin("v_stream.hidden_layers.0", y)))
        q = v + a - a.mean(1, keepdim=True)
        require_close(o.q_values, q, "q values", rtol=1e-3, atol=1e-4)
        require_close(o.q_values.mean(1), v[:, 0], "mean of the values (the state's value)",
                      rtol=1e-3, atol=1e-3)
    else:
        y = act(lin("main_stream", y))
        a = lin("a_stream", y[:, :512]).reshape(B, n, k)
        v = lin("v_stream", y[:, 512:]).reshape(B, 1, k)
        d = torch.softmax(v + a - a.mean(1, keepdim=True), 2)
        require_close(o.q_dist, d, "atom probabilities", rtol=1e-3, atol=1e-4)
        require_close(o.q_values, (d * torch.linspace(-2, 3, k, dtype=torch.float64)).sum(2),
                      "q values", rtol=1e-3, atol=1e-3)
    # batch elements do not mix
    one = m(x[-1:])
    require_close(one.q_values[0], o.q_values[-1], "values of one state alone and in a batch",
                  rtol=1e-3, atol=1e-3)
    return {"head:" + h} | ({"nontrivial"} if B > 1 and n > 1 else set())


QUICK_SCALE = 4

SUBS = [
    Sub("values", values(), run_values, quick=900, thorough=60000, shards=2,
        axis=("kind", KINDS)),
    Sub("heads", heads(), run_heads, quick=700, thorough=40000, shards=2, axis=("head", HEADS)),
    Sub("conv", convs(), run_convs, quick=60, thorough=1500, shards=2,
        axis=("head", ["dueling", "dist", "large", "small"])),
]
