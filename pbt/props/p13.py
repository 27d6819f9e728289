"""P13: TRPO stays in its trust region and never worsens its surrogate."""
import copy
import math

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from pbt import agents as A
from pbt.core import Sub, Violation, require, require_close, require_eq, rng, seed_all
from pbt.gens import pick, flag, seeds, sized_list, spread
from pbt.props.p12 import Norm, apply_step, compare, gae

import pfrl
from pfrl.agents import TRPO
from pfrl.agents.trpo import _hessian_vector_product
from pfrl.utils.batch_states import batch_states

RULE = """Cases of 'update' are rollouts of steps, terminations and resets over 1-3 environments with
a random stochastic policy (categorical or Gaussian, stateless or recurrent), limits and
coefficients; after every update the mean KL divergence, the surrogate gain, the step and the
value regression are recomputed in float64. 'cliff': the same for policies that change abruptly a
generated distance from where they are, so that line searches back off or fail. Non-trivial: the policy moved, in an update on at least
two transitions. Cases of 'solver' are symmetric positive definite systems of dimension 1-12;
non-trivial: dimension at least 2 and a nonzero right-hand side."""
ASSUMPTIONS = [
    "KL limit checked up to 1e-3 relative + 1e-6, gain up to 2e-6 (float32 evaluation)",
    "the step is compared with a float64 conjugate gradient at 5% and only when rounding cannot "
    "decide the line search"]


class Pi(nn.Module):
    def __init__(self, kind, n=3, hidden=3):
        super().__init__()
        self.kind, self.n = kind, n
        self.l1 = nn.Linear(3, hidden)
        self.l2 = nn.Linear(hidden, 2 * n if kind == "gauss" else n)

    def raw(self, x):
        return self.l2(torch.tanh(self.l1(x)))

    def dist(self, z):
        if self.kind == "gauss":
            return torch.distributions.Independent(torch.distributions.Normal(
                z[..., :self.n], nn.functional.softplus(z[..., self.n:]) + 0.2), 1)
        return torch.distributions.Categorical(logits=z)

    def forward(self, x):
        return self.dist(self.raw(x))


class RPi(pfrl.nn.Recurrent, nn.Module):
    def __init__(self, n=3, hidden=2):
        super().__init__()
        self.l1 = nn.Linear(3, hidden)
        self.rnn = nn.GRU(hidden, hidden)
        self.l2 = nn.Linear(hidden, n)

    def dist(self, z):
        return torch.distributions.Categorical(logits=z)

    def forward(self, pack, rs):
        P = nn.utils.rnn.PackedSequence
        h = torch.tanh(self.l1(pack.data))
        out, rs = self.rnn(P(h, pack.batch_sizes, pack.sorted_indices, pack.unsorted_indices), rs)
        return self.dist(self.l2(out.data)), rs

    def one(self, x, rs):
        out, rs = self.rnn(torch.tanh(self.l1(x[None]))[None], rs)
        return self.l2(out[0])[0], rs


class V(nn.Module):
    def __init__(self, hidden=3):
        super().__init__()
        self.l1, self.l2 = nn.Linear(3, hidden), nn.Linear(hidden, 1)
        self.calls = []

    def forward(self, x):
        if torch.is_grad_enabled():
            self.calls.append(x.detach().clone())
        return self.l2(torch.tanh(self.l1(x)))


class RV(pfrl.nn.Recurrent, nn.Module):
    def __init__(self, hidden=2):
        super().__init__()
        self.l1, self.rnn, self.l2 = nn.Linear(3, hidden), nn.GRU(hidden, hidden), nn.Linear(
            hidden, 1)
        self.calls = []

    def forward(self, pack, rs):
        P = nn.utils.rnn.PackedSequence
        if torch.is_grad_enabled():
            self.calls.append([s.detach().clone() for s in A.unpack(pack)])
        h = torch.tanh(self.l1(pack.data))
        out, rs = self.rnn(P(h, pack.batch_sizes, pack.sorted_indices, pack.unsorted_indices), rs)
        return P(self.l2(out.data), pack.batch_sizes, pack.sorted_indices,
                 pack.unsorted_indices), rs

    def one(self, x, rs):
        out, rs = self.rnn(torch.tanh(self.l1(x[None]))[None], rs)
        return self.l2(out[0])[0], rs


def dbl(x):
    return None if x is None else x.double()


def raws(pol, chunks, rec):
    """Raw policy outputs for all transitions of the chunks (float64)."""
    out = []
    for c in chunks:
        if rec:
            h = dbl(c[0]["prs"])
            for t in c:
                z, h = pol.one(t["x"], h)
                out.append(z)
        else:
            out += list(pol.raw(torch.stack([t["x"] for t in c])))
    return torch.stack(out)


def cg(mv, b, iters, tol=1e-10):
    x, r = torch.zeros_like(b), b.clone()
    if float(r.norm()) < tol:
        return x
    p = r.clone()
    for _ in range(iters):
        ap = mv(p)
        a = r.dot(r) / p.dot(ap)
        x = x + a * p
        rn = r - a * ap
        if float(rn.norm()) < tol:
            break
        p = rn + (rn.dot(rn) / r.dot(r)) * p
        r = rn
    return x


def flatp(m):
    return torch.cat([p.reshape(-1) for p in m.parameters()])


def set_flat(m, v):
    k = 0
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(v[k:k + p.numel()].reshape(p.shape))
            k += p.numel()


def run(case):
    r = rng(case["seed"])
    seed_all(case["seed"])
    rec, N = case["recurrent"], case["n_env"]
    pol = A.randomize(RPi() if rec else Pi(case["kind"]), case["seed"], case["scale"])
    vf = A.randomize(RV() if rec else V(), case["seed"] + 1, 0.6)
    norm = Norm() if case["norm"] else None
    lr = 0.1
    custom = case["custom"]

    def bs(states, device, phi):
        x = batch_states(states, device, phi)
        return x * 0.5 if custom else x

    vb = min(case["vf_batch"], case["interval"])
    ag = TRPO(pol, vf, A.sgd(vf, lr), obs_normalizer=norm, gamma=case["gamma"],
              lambd=case["lambd"], entropy_coef=case["ent_coef"], update_interval=case["interval"],
              max_kl=case["max_kl"], max_grad_norm=case["max_norm"], vf_epochs=case["epochs"], vf_batch_size=vb,
              standardize_advantages=case["std"], batch_states=bs, recurrent=rec,
              max_recurrent_sequence_len=case["max_len"] if rec else None,
              line_search_max_backtrack=case["backtrack"], conjugate_gradient_max_iter=case["cg"],
              conjugate_gradient_damping=case["damping"])

    def prep(x):
        x = torch.tensor(x)
        x = x * 0.5 if custom else x
        return (x * 0.5 + 0.1) if norm else x

    rvf = copy.deepcopy(vf)
    open_seg, memory = [[] for _ in range(N)], []
    prs, vrs = [None] * N, [None] * N
    labels, nt = set(), False
    before = [p.detach().clone() for p in pol.parameters()]
    for what, step in A.drive(ag, N, case["rows"], r, N == 1 and case["single"]):
        if what == "acted":
            vf.calls.clear()
            if rec:
                with torch.no_grad():
                    for i, t in enumerate(step):
                        x = prep(t["state"])
                        t["prs"], t["vrs"] = prs[i], vrs[i]
                        _, prs[i] = pol.one(x, prs[i])
                        _, vrs[i] = rvf.one(x, vrs[i])
                        t["nvrs"] = vrs[i]
            continue
        for i, t in enumerate(step):
            open_seg[i].append(t)
            if t["done"] or t["reset"]:
                memory.append(open_seg[i])
                open_seg[i] = []
                prs[i] = vrs[i] = None
        if sum(map(len, memory)) + sum(map(len, open_seg)) < case["interval"]:
            for p, b in zip(pol.parameters(), before):
                require(torch.equal(p.detach(), b), "policy changed without an update")
            continue
        segs = memory + [s for s in open_seg if s]
        memory, open_seg = [], [[] for _ in range(N)]
        # ---- reference quantities with the parameters before the update
        old = copy.deepcopy(pol).double()
        with torch.no_grad():
            for p, b in zip(old.parameters(), before):
                p.copy_(b.double())
            dv = copy.deepcopy(rvf).double()
            for seg in segs:
                h, hn = (dbl(seg[0]["vrs"]), dbl(seg[0]["nvrs"])) if rec else (None, None)
                for t in seg:
                    t["x"] = prep(t["state"]).double()
                    xn = prep(t["next_state"]).double()
                    if rec:
                        v, h = dv.one(t["x"], h)
                        vn, hn = dv.one(xn, hn)
                    else:
                        v, vn = dv(t["x"][None]), dv(xn[None])
                    t["v"], t["next_v"] = float(v), float(vn)
                gae(seg, case["gamma"], case["lambd"])
        ml = case["max_len"] if rec else None
        chunks = [seg[k:k + (ml or len(seg))] for seg in segs for k in range(0, len(seg),
                                                                          ml or len(seg))]
        data = [t for c in chunks for t in c]
        adv = torch.tensor([t["adv"] for t in data], dtype=torch.float64)
        if case["std"]:
            sd = float(adv.std(unbiased=False))
            if sd < 1e-3:
                return ["degenerate"]
            adv = (adv - adv.mean()) / (sd + 1e-8)
        acts = torch.as_tensor(np.stack([np.asarray(t["action"]) for t in data]))
        # behaviour log probabilities are evaluated over whole segments
        with torch.no_grad():
            z = raws(old, segs, rec)
            lp_old = old.dist(z).log_prob(acts)

        def gain_of(d):
            return (torch.exp(d.log_prob(acts) - lp_old) * adv).mean() + case[
                "ent_coef"] * d.entropy().mean()

        def kl_of(d0, d1):
            return torch.distributions.kl_divergence(d0, d1).mean()

        work = copy.deepcopy(old)
        for p in work.parameters():
            p.requires_grad_(True)
        d = work.dist(raws(work, chunks, rec))
        with torch.no_grad():
            d_old = old.dist(raws(old, chunks, rec))
        gain = gain_of(d)
        kl = kl_of(d_old, d)
        ps = list(work.parameters())
        g = torch.cat([x.reshape(-1) for x in torch.autograd.grad(gain, ps, retain_graph=True)])
        kg = torch.cat([x.reshape(-1) for x in torch.autograd.grad(kl, ps, create_graph=True)])

        def mv(v):
            hv = torch.autograd.grad((kg * v).sum(), ps, retain_graph=True)
            return torch.cat([x.reshape(-1) for x in hv]) + case["damping"] * v

        gen = torch.Generator().manual_seed(0)

        def noisy(v, eps):
            return v * (1 + eps * torch.randn(v.shape, generator=gen, dtype=torch.float64)) + (
                eps * float(v.norm()) * torch.randn(v.shape, generator=gen, dtype=torch.float64))

        def full_step(eps):
            if not eps:
                d = cg(mv, g.detach(), case["cg"])
            else:
                d = cg(lambda v: noisy(mv(v), eps), noisy(g.detach(), eps), case["cg"])
            return d * math.sqrt(2 * case["max_kl"] / (float(d.dot(mv(d))) + 1e-8))

        full = full_step(0.0)
        # how much float32 rounding alone may move the solution
        def wobble():
            return max([float((full_step(2e-6) - full).norm()) for _ in range(4)]) / max(
                float(full.norm()), 1e-12)

        # ---- what the agent did
        moved = torch.cat([(p.detach() - b).reshape(-1).double()
                           for p, b in zip(pol.parameters(), before)])
        new = copy.deepcopy(pol).double()
        with torch.no_grad():
            d_new = new.dist(raws(new, chunks, rec))
            new_gain, new_kl = float(gain_of(d_new)), float(kl_of(d_old, d_new))
        gain = float(gain)
        tol_g = 2e-6 * max(1.0, abs(gain))
        changed = bool((moved != 0).any())
        if changed:
            require(math.isfinite(new_kl) and new_kl <= case["max_kl"] * (1 + 1e-3) + 1e-6,
                    "KL divergence %.6g after the update exceeds the limit %.6g", new_kl,
                    case["max_kl"])
            require(math.isfinite(new_gain) and new_gain >= gain - tol_g,
                    "surrogate gain fell from %.8g to %.8g", gain, new_gain)
            nt = nt or len(data) >= 2
        # the first acceptable step of the line search
        base = flatp(old).detach()
        clear, want = True, None
        for k in range(case["backtrack"] + 1):
            trial = copy.deepcopy(old)
            set_flat(trial, base + full * 0.5 ** k)
            with torch.no_grad():
                dt = trial.dist(raws(trial, chunks, rec))
                tg, tk = float(gain_of(dt)) - gain, float(kl_of(d_old, dt))
            if abs(tg) < 1e-4 or abs(tk - case["max_kl"]) < 0.05 * case["max_kl"]:
                clear = False
                break
            if tg >= 0 and tk <= case["max_kl"]:
                want = full * 0.5 ** k
                labels.add("backtracked" if k else "full-step")
                break
        if clear and float(g.norm()) > 1e-3 and wobble() < 2e-3:
            if want is None:
                require(not changed, "no step of the line search is acceptable, but the policy "
                        "changed")
                labels.add("rejected")
            else:
                err = float((moved - want).norm() / want.norm())
                require(err < 0.05, "policy step differs from the natural-gradient step by %.3g "
                        "(step norm %.4g, expected %.4g)", err, float(moved.norm()),
                        float(want.norm()))
                labels.add("step-compared")
        # ---- value function: regression to the lambda-returns
        by_key = {A.key(prep(t["state"])): t for t in data}
        D = len(data)
        vbefore = [p.detach().clone() for p in rvf.parameters()]
        rvf.calls.clear()
        nb = len(vf.calls)
        require_eq(nb, case["epochs"] * (D // vb) if rec else math.ceil(case["epochs"] * D / vb),
                   "number of value minibatches")
        for call in vf.calls:
            seqs = call if rec else [x[None] for x in call]
            require_eq(sum(len(s) for s in seqs), vb, "size of value minibatch")
            loss = 0.0
            for seq in seqs:
                ts = [by_key.get(A.key(x)) for x in seq]
                require(all(t is not None for t in ts), "value function trained on unknown state")
                h = ts[0]["vrs"] if rec else None
                for t in ts:
                    if rec:
                        v, h = rvf.one(t["x"].float(), h)
                    else:
                        v = rvf(t["x"].float()[None])
                    loss = loss + (v.reshape(()) - t["vt"]) ** 2
            apply_step(rvf, loss / vb, lr, case["max_norm"])
        vf.calls.clear()
        compare(vbefore, vf, rvf, "TRPO value update")
        A.load(rvf, vf)
        if norm:
            got = torch.cat([x.reshape(-1, 3) for x in norm.seen])
            require_eq(sorted(A.key(x) for x in got), sorted(A.key(
                (torch.tensor(t["state"]) * 0.5) if custom else t["state"]) for t in data),
                "states experienced by the normalizer")
            norm.seen.clear()
        before = [p.detach().clone() for p in pol.parameters()]
    return sorted(labels) + (["nontrivial"] if nt else [])


def strategy(rec):
    row = st.one_of(st.just(0), st.just(0), st.integers(0, 63))
    return st.fixed_dictionaries(dict(
        recurrent=st.just(rec), seed=seeds, n_env=pick([1, 2, 3, 1, 2, 3, 6]), single=flag,
        rows=sized_list(row, 2, 12), interval=spread(2, 9), max_norm=pick([None, 0.1, 1.0]), vf_batch=spread(1, 5),
        epochs=spread(1, 2), gamma=pick([0.9, 0.99, 1.0]),
        lambd=pick([0.95, 0.5, 0.0]), ent_coef=pick([0.0, 0.01, 0.3]),
        max_kl=pick([0.01, 0.001, 0.1, 1.0]), std=flag,
        backtrack=pick([10, 3, 0]), cg=pick([10, 4, 1]),
        damping=pick([0.01, 0.1]), custom=flag, norm=flag,
        scale=pick([0.4, 0.8, 2.0]), kind=pick(["cat", "gauss"]),
        max_len=pick([None, 1, 2, 3])))


# ------------------------------------------------------------------ policies that do not like to be changed
class CliffPi(Pi):
    """Away from its home parameters the policy is a very different one ('jump'), turns against the
    gradient ('flip') or becomes almost deterministic ('sharp'), none of which a gradient tells."""

    def settle(self, radius, mode):
        self.home = [p.detach().clone() for p in self.parameters()]
        self.radius, self.mode = radius, mode

    def raw(self, x):
        z = super().raw(x)
        d = max(float((p.detach() - h).abs().max()) for p, h in zip(self.parameters(), self.home))
        if d <= self.radius:
            return z
        if self.mode == "flip":
            here = [p.detach().clone() for p in self.parameters()]
            with torch.no_grad():
                for p, h in zip(self.parameters(), self.home):
                    p.copy_(h)
                z0 = super().raw(x)
                for p, h in zip(self.parameters(), here):
                    p.copy_(h)
            return 2 * z0 - z
        if self.mode == "sharp":
            return z * 50.0
        return z + 3.0 * torch.arange(z.shape[-1])


def run_cliff(case):
    r = rng(case["seed"])
    seed_all(case["seed"])
    N = case["n_env"]
    pol = A.randomize(CliffPi(case["kind"], case["n"], case["hidden"]), case["seed"], case["scale"])
    vf = A.randomize(V(), case["seed"] + 1, 0.6)
    ag = TRPO(pol, vf, A.sgd(vf, 0.01), gamma=case["gamma"], lambd=case["lambd"], entropy_coef=case["ent_coef"],
              update_interval=case["interval"], max_kl=case["max_kl"], vf_epochs=1, vf_batch_size=2,
              standardize_advantages=case["std"], line_search_max_backtrack=case["backtrack"],
              conjugate_gradient_max_iter=case["cg"])
    pol.settle(case["radius"], case["mode"])
    segs, open_seg, labels = [], [[] for _ in range(N)], set()
    for what, step in A.drive(ag, N, case["rows"], r):
        if what == "acted":
            before_v = copy.deepcopy(vf)
            continue
        for i, t in enumerate(step):
            open_seg[i].append(t)
            if t["done"] or t["reset"]:
                segs.append(open_seg[i])
                open_seg[i] = []
        if sum(map(len, segs)) + sum(map(len, open_seg)) < case["interval"]:
            continue
        segs += [x for x in open_seg if x]
        with torch.no_grad():
            for seg in segs:
                for t in seg:
                    t["v"], t["next_v"] = (float(before_v(torch.tensor(t[k])[None])) for k in ("state", "next_state"))
                gae(seg, case["gamma"], case["lambd"])
            data = [t for seg in segs for t in seg]
            adv = torch.tensor([t["adv"] for t in data])
            if case["std"]:
                if float(adv.std(unbiased=False)) < 1e-3:
                    return ["degenerate"]
                adv = (adv - adv.mean()) / (adv.std(unbiased=False) + 1e-8)
            x = torch.tensor(np.stack([t["state"] for t in data]))
            acts = torch.as_tensor(np.stack([np.asarray(t["action"]) for t in data]))
            now = [p.detach().clone() for p in pol.parameters()]
            d_new = pol(x)
            A_load(pol, pol.home)
            d_old = pol(x)
            A_load(pol, now)

            def gain(d):
                return float((torch.exp(d.log_prob(acts) - d_old.log_prob(acts)) * adv).mean() + case[
                    "ent_coef"] * d.entropy().mean())
            kl = float(torch.distributions.kl_divergence(d_old, d_new).mean())
            g0, g1 = gain(d_old), gain(d_new)
        if any(not torch.equal(a, b) for a, b in zip(now, pol.home)):
            require(kl <= case["max_kl"] * (1 + 1e-3) + 1e-6, "KL divergence %.6g after the update exceeds the "
                    "limit %.6g", kl, case["max_kl"])
            require(g1 >= g0 - 1e-5 * max(1.0, abs(g0)), "surrogate gain fell from %.8g to %.8g", g0, g1)
            labels.add("moved")
        else:
            labels.add("rejected")
        pol.settle(case["radius"], case["mode"])
        segs, open_seg = [], [[] for _ in range(N)]
    return sorted(labels) + (["nontrivial"] if labels else [])


def A_load(m, values):
    with torch.no_grad():
        for p, v in zip(m.parameters(), values):
            p.copy_(v)


def cliff_strategy():
    return st.fixed_dictionaries(dict(
        seed=seeds, n_env=spread(1, 3), rows=sized_list(st.one_of(st.just(0), st.integers(0, 63)), 3, 10),
        interval=spread(2, 6), kind=pick(["cat", "cat", "gauss"]), n=spread(2, 4), hidden=pick([3, 3, 30, 80]),
        scale=pick([0.1, 0.4, 0.8]), gamma=pick([0.9, 1.0]), lambd=pick([0.95, 0.0]), ent_coef=pick([0.0, 0.01]),
        max_kl=pick([0.01, 0.001, 0.1]), std=flag, backtrack=pick([10, 10, 0, 1, 3, 5, 12]), cg=pick([10, 4, 1]),
        radius=pick([0.0, 1e-4, 1e-3, 0.01, 0.03, 0.1, 0.1]), mode=pick(["jump", "flip", "sharp"])))


# ------------------------------------------------------------------ solver
def run_solver(case):
    r = rng(case["seed"])
    n = case["n"]
    q, _ = np.linalg.qr(r.randn(n, n))
    eig = np.array([case["eigs"][i % len(case["eigs"])] for i in range(n)])
    m = torch.tensor(q @ np.diag(eig) @ q.T)
    m = 0.5 * (m + m.T)
    if case["dim"] == "zero":
        b = torch.zeros(n, dtype=torch.float64)
    else:
        b = torch.tensor(r.randn(n)) * case["bscale"]
    calls = []

    def mv(v):
        calls.append(1)
        return m @ v

    keep = b.clone()
    x = pfrl.utils.conjugate_gradient(mv, b, max_iter=n + case["extra"])
    require(torch.equal(b, keep), "the right-hand side was modified")
    want = torch.linalg.solve(m, b)
    require_close(x, want, "solution of a %d-dimensional system" % n, rtol=1e-5, atol=1e-12)
    return ["nontrivial"] if n >= 2 and case["dim"] != "zero" else ["zero"]


def solver_strategy():
    return st.fixed_dictionaries(dict(
        seed=seeds, n=st.one_of(spread(1, 12), spread(12, 30)), extra=spread(0, 3),
        eigs=st.lists(spread(1, 100).map(lambda x: x / 10), min_size=1, max_size=24),
        dim=pick(["full", "full", "full", "zero"]),
        bscale=pick([1.0, 100.0, 1e-3])))


def run_hvp(case):
    """Hessian-vector products against the full Hessian of a random smooth function."""
    r = rng(case["seed"])
    shapes = [tuple(s) for s in case["shapes"]]
    ps = [nn.Parameter(torch.tensor(r.randn(*s))) for s in shapes]
    n = sum(p.numel() for p in ps)
    W = torch.tensor(r.randn(n, n))

    def f(flat):
        return torch.tanh(W @ flat).sum() + (flat ** 4).sum() / 4 + (flat[:1] * flat[-1:]).sum()

    flat = torch.cat([p.reshape(-1) for p in ps])
    g = torch.autograd.grad(f(flat), ps, create_graph=True)
    fg = torch.cat([x.reshape(-1) for x in g])
    v = torch.tensor(r.randn(n))
    got = _hessian_vector_product(fg, ps, v)
    H = torch.autograd.functional.hessian(f, flat.detach())
    require_close(got, H @ v, "Hessian-vector product", rtol=1e-8, atol=1e-8)
    return ["nontrivial"] if n > 1 else []


def hvp_strategy():
    return st.fixed_dictionaries(dict(seed=seeds, shapes=st.lists(
        st.lists(spread(1, 3), min_size=1, max_size=2), min_size=1, max_size=3)))


SUBS = [
    Sub("update", lambda: strategy(False), run, quick=300, shards=4),
    Sub("recurrent", lambda: strategy(True), run, quick=120, shards=3),
    Sub("cliff", cliff_strategy, run_cliff, quick=200, shards=2),
    Sub("solver", solver_strategy, run_solver, quick=500),
    Sub("hvp", hvp_strategy, run_hvp, quick=100),
]
