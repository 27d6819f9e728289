"""P27: policy heads and distributions produce the documented distributions."""
import math
import warnings

import numpy as np
import torch
from hypothesis import strategies as st
from torch import distributions as D
from torch import nn

from pbt.core import Sub, require, require_close, require_eq, require_freq, rng, seed_all
from pbt.gens import flag, pick, seeds, spread

import pfrl
from pfrl import nn as pnn
from pfrl import policies as P
from pfrl.distributions import Delta
from pfrl.functions.bound_by_tanh import bound_by_tanh
from pfrl.functions.lower_triangular_matrix import lower_triangular_matrix
from pfrl.initializers import init_chainer_default, init_lecun_normal
from pfrl.utils.mode_of_distribution import mode_of_distribution

warnings.filterwarnings("ignore")

RULE = """'heads': every policy head over generated inputs, sizes and variance functions: mean, deviation, log-probabilities of
generated actions, entropy, sample shapes, empirical distribution of the samples, mode, gradient of the parameters. 'mode': the mode of generated (nested) distributions
against 200 alternatives. 'delta': the point distribution under shapes, expansion and gradients. 'noisy': the noise of a noisy layer is
recovered from one forward pass over the unit vectors and must be the rank-one product of transformed Gaussians that also
shifts the bias, redrawn for every pass; conversion of generated module trees. 'blocks': triangular matrices, bounding, MLPs,
branches and initializers against their formula. Non-trivial: batch and width both over 1, or two or more layers."""
ASSUMPTIONS = ["the mode of a transformed distribution is the image of the mode of its base, as implemented and "
               "used for greedy behaviour; it need not maximise the transformed density"]


def phi(z):
    return 0.5 * (1 + math.erf(z / math.sqrt(2)))


HEADS = ["fixed", "spherical", "diagonal", "covariance", "deterministic", "softmax"]
VAR = {"softplus": (nn.functional.softplus, lambda x: np.log1p(np.exp(-np.abs(x))) + np.maximum(x, 0)),
       "exp": (torch.exp, np.exp)}


@st.composite
def heads(draw):
    return dict(head=draw(pick(HEADS)), B=draw(spread(1, 4)), k=draw(spread(1, 4)),
                seed=draw(seeds), scale=draw(pick([0.5, 1, 3.0, 1e-2, 40.0])), var=draw(pick([
                    "default", "softplus", "exp"])), amp=draw(pick([0.0, 1.0, 4.0])),
                vamp=draw(pick([1.0, 4.0, 15.0])),
                init=draw(pick([0, -1.0, "array", -7.0, 5.0])))


def run_heads(c):
    r = rng(c["seed"])
    seed_all(c["seed"])
    B, k, h = c["B"], c["k"], c["head"]
    x = (r.randn(B, 2 * k if h == "covariance" else k) * c["amp"]).astype(np.float32)
    if h == "covariance":
        x[:, k:] = np.clip(x[:, k:] * c["vamp"], -9, 30 if c["var"] != "exp" else 9)
    xt = torch.tensor(x, requires_grad=True)
    vf, vr = VAR["softplus" if c["var"] == "default" else c["var"]]
    kw = {} if c["var"] == "default" else dict(var_func=vf)
    if h == "softmax":
        d = P.SoftmaxCategoricalHead()(xt)
        z = x.astype(float)
        p = np.exp(z - z.max(1, keepdims=True))
        p /= p.sum(1, keepdims=True)
        require_close(d.probs, p, "probabilities", rtol=1e-5)
        a = r.randint(0, k, B)
        require_close(d.log_prob(torch.as_tensor(a)), np.log(p[np.arange(B), a]), "log_prob",
                      rtol=1e-4, atol=1e-4)
        require_close(d.entropy(), -(p * np.log(p)).sum(1), "entropy", rtol=1e-4, atol=1e-5)
        s = d.sample((2000,)).numpy()
        require_eq(s.shape, (2000, B), "shape of samples")
        for b in range(B):
            require_freq(np.bincount(s[:, b], minlength=k), p[b], 2000, "samples of row %d" % b)
        m = mode_of_distribution(d).numpy()
        require_close(p[np.arange(B), m], p.max(1), "probability of the mode", rtol=1e-5)
        return {"head:" + h} | ({"nontrivial"} if B > 1 and k > 1 else set())
    if h == "deterministic":
        d = P.DeterministicHead()(xt)
        require_eq((tuple(d.batch_shape), tuple(d.event_shape)), ((B,), (k,)), "shapes")
        for s in (d.sample(), d.rsample(), d.mean):
            require_eq(s.detach().numpy(), x, "action of a deterministic policy")
        require(not d.sample().requires_grad, "sample() carries a gradient")
        w = r.randn(B, k).astype(np.float32)
        g, = torch.autograd.grad((d.rsample() * torch.as_tensor(w)).sum(), xt)
        require_close(g, w, "gradient through rsample()")
        require_eq(tuple(d.sample((3,)).shape), (3, B, k), "shape of samples")
        return {"head:" + h} | ({"nontrivial"} if B > 1 and k > 1 else set())
    params = []
    if h == "fixed":
        m = P.GaussianHeadWithFixedCovariance(c["scale"])
        mean, sd = x, np.full((B, k), c["scale"])
        require_eq(len(list(m.parameters())), 0, "parameters of a fixed head")
    elif h == "covariance":
        m = P.GaussianHeadWithDiagonalCovariance(**kw)
        mean, sd = x[:, :k], np.sqrt(vr(x[:, k:].astype(float)))
    else:
        init = c["init"]
        if init == "array":
            init = r.randn(k if h == "diagonal" else 1) * 2
        if c["init"] != 0:
            kw["var_param_init"] = init
        if h == "diagonal" or c["seed"] % 2:
            kw["var_type"] = h
        m = P.GaussianHeadWithStateIndependentCovariance(k, **kw)
        mean = x
        sd = np.broadcast_to(np.sqrt(vr(np.asarray(init, float))), (B, k))
        params = list(m.parameters())
        require_eq([tuple(p.shape) for p in params], [(k if h == "diagonal" else 1,)],
                   "learnable parameters")
    d = m(xt)
    require_eq((tuple(d.batch_shape), tuple(d.event_shape)), ((B,), (k,)), "shapes")
    require_close(d.mean, mean, "mean", rtol=0, atol=0)
    require_close(d.stddev, sd, "standard deviation", rtol=1e-4, atol=1e-6)
    a = (mean + r.randn(B, k) * sd * 1.5).astype(np.float32)
    lp = (-0.5 * ((a.astype(float) - mean) / sd) ** 2 - np.log(sd)
          - 0.5 * np.log(2 * np.pi)).sum(1)
    require_close(d.log_prob(torch.as_tensor(a)), lp, "log_prob", rtol=1e-3, atol=1e-3)
    require_close(d.entropy(), (0.5 + 0.5 * np.log(2 * np.pi) + np.log(sd)).sum(1), "entropy",
                  rtol=1e-4, atol=1e-4)
    require_eq(mode_of_distribution(d).detach().numpy(), mean, "mode")
    n = 1500
    s = d.sample((n,)).numpy().astype(float)
    require_eq(s.shape, (n, B, k), "shape of samples")
    require(not d.sample().requires_grad and d.rsample().requires_grad,
            "sample() has or rsample() lacks a gradient")
    for z in (-1.5, -0.5, 0.3, 1.2):
        for b in range(B):
            for j in range(k):
                cnt = int((s[:, b, j] <= mean[b, j] + z * sd[b, j]).sum())
                require_freq([cnt, n - cnt], [phi(z), 1 - phi(z)], n, "samples, element %s"
                             % ((b, j),))
    if B * k > 1:
        f = (s > mean).reshape(n, -1)
        for j in range(f.shape[1] - 1):
            require_freq([int((f[:, j] & f[:, j + 1]).sum())], [0.25], n,
                         "independence of two elements of a sample")
    if params:
        g, = torch.autograd.grad(d.log_prob(torch.as_tensor(a)).sum(), params)
        v0 = params[0].detach().double().numpy()

        def f(v):
            s_ = np.sqrt(vr(np.broadcast_to(v, (k,))))
            return (-0.5 * ((a - mean) / s_) ** 2 - np.log(s_)).sum()
        for i in range(len(v0)):
            e = np.zeros(len(v0))
            e[i] = 1e-5
            num = (f(v0 + e) - f(v0 - e)) / 2e-5
            require_close(float(g[i]), num, "gradient of the variance parameter", rtol=1e-2,
                          atol=1e-2)
    return {"head:" + h} | ({"nontrivial"} if B > 1 and k > 1 else set())


# ------------------------------------------------------------------ mode
MODES = ["categorical", "normal", "indep", "mvn", "tanh", "affine", "chain", "indep-tanh",
         "tanh-indep", "indep-cat", "logits"]


@st.composite
def modes(draw):
    return dict(kind=draw(pick(MODES)), B=draw(spread(1, 4)), k=draw(spread(1, 4)),
                seed=draw(seeds), ties=draw(flag), rank=draw(pick([1, 1, 0, 2])))


def run_mode(c):
    r = rng(c["seed"])
    seed_all(c["seed"])
    B, k, kind = c["B"], c["k"], c["kind"]
    loc = torch.as_tensor(r.randn(B, k).astype(np.float32))
    sc = torch.as_tensor(r.uniform(0.2, 1.5, (B, k)).astype(np.float32))
    base = D.Normal(loc, sc)
    dens = True
    if kind in ("categorical", "logits", "indep-cat"):
        p = r.dirichlet(np.ones(k), B)
        if c["ties"]:
            p[:] = 1.0 / k
        if c["rank"] != 1 and kind != "indep-cat":      # other ranks of batch shape
            p = p[0] if c["rank"] == 0 else np.stack([p, p[::-1]], 1)
        d = D.Categorical(logits=torch.as_tensor(np.log(p + 1e-9))) if kind == "logits" else (
            D.Categorical(probs=torch.as_tensor(p)))
        if kind == "indep-cat":
            d = D.Independent(d, 1)
        m = mode_of_distribution(d)
        require_eq(tuple(m.shape), p.shape[:-1], "shape of the mode")
        require_close(np.take_along_axis(p, m.numpy()[..., None], -1)[..., 0], p.max(-1), "probability of the mode")
        return {"kind:" + kind} | ({"nontrivial"} if B > 1 and k > 1 else set())
    if kind == "normal":
        d, want = base, loc
    elif kind == "indep":
        d, want = D.Independent(base, 1), loc
    elif kind == "mvn":
        L = np.tril(r.randn(B, k, k)) + 2 * np.eye(k)
        d, want = D.MultivariateNormal(loc, scale_tril=torch.as_tensor(
            np.tril(np.abs(L)).astype(np.float32))), loc
    else:
        dens = False
        tanh = D.transforms.TanhTransform(cache_size=int(c["ties"]))
        aff = D.transforms.AffineTransform(0.5, -2.0)
        if kind == "tanh":
            d, want = D.TransformedDistribution(base, [tanh]), torch.tanh(loc)
        elif kind == "affine":
            d, want = D.TransformedDistribution(base, [aff]), 0.5 - 2 * loc
            dens = True
        elif kind == "chain":
            d, want = D.TransformedDistribution(base, [aff, tanh]), torch.tanh(0.5 - 2 * loc)
        elif kind == "indep-tanh":
            d = D.Independent(D.TransformedDistribution(base, [tanh]), 1)
            want = torch.tanh(loc)
        else:
            d = D.TransformedDistribution(D.Independent(base, 1), [tanh])
            want = torch.tanh(loc)
    m = mode_of_distribution(d)
    require_close(m, want, "mode", rtol=1e-5, atol=1e-6)
    if dens:
        lm = d.log_prob(m)
        for _ in range(20):
            x = d.sample()
            require(bool((d.log_prob(x) <= lm + 1e-4).all()), "a sample is more probable than "
                    "the mode")
            y = m + 0.05 * torch.randn(m.shape)
            require(bool((d.log_prob(y) <= lm + 1e-4).all()), "a neighbour is more probable than "
                    "the mode")
    return {"kind:" + kind} | ({"nontrivial"} if B > 1 and k > 1 else set())


# ------------------------------------------------------------------ delta
@st.composite
def deltas(draw):
    return dict(shape=draw(pick([None, [], [3], [2, 3], [1, 2]])), ss=draw(pick(
        [[], [2], [3, 1]])), exp=draw(pick([None, [], [4], [2, 1]])), seed=draw(seeds),
        ind=draw(flag))


def run_delta(c):
    r = rng(c["seed"])
    if c["shape"] is None:
        v = float(r.randn())
        d = Delta(v)
        loc = np.float32(v)
        sh = ()
    else:
        sh = tuple(c["shape"])
        t = torch.tensor(r.randn(*sh).astype(np.float32) if sh else np.float32(r.randn()),
                         requires_grad=True)
        loc = t.detach().numpy().copy()
        d = Delta(t)
    ex = ()
    if c["exp"] is not None:
        ex = tuple(c["exp"])
        d = d.expand(torch.Size(ex) + torch.Size(sh))
    full = ex + sh
    if c["ind"] and len(full) > 0:
        d = D.Independent(d, 1)
    want = np.broadcast_to(loc, full)
    require_close(d.mean, want, "mean", rtol=1e-6)
    require_close(d.variance, np.zeros(full), "variance")
    require_close(d.stddev, np.zeros(full), "standard deviation")
    ss = tuple(c["ss"])
    for f in (d.sample, d.rsample):
        s = f() if not ss else f(torch.Size(ss))
        require_close(s, np.broadcast_to(loc, ss + full), "sample", rtol=1e-6)
        require_eq(s.requires_grad, f == d.rsample and c["shape"] is not None,
                   "gradient of a sample")
    for f in (lambda: d.log_prob(d.mean), d.entropy):
        try:
            f()
        except (RuntimeError, NotImplementedError):
            pass
        else:
            require(False, "the density of a point distribution is defined")
    return {"nontrivial"} if len(full) > 1 else set()


# ------------------------------------------------------------------ noisy layers
@st.composite
def noisy(draw):
    return dict(n_in=draw(spread(1, 5)), n_out=draw(spread(1, 5)), bias=draw(flag),
                sigma=draw(pick([None, 0.4, 1.0, 0.0])), seed=draw(seeds), ev=draw(flag),
                double=draw(flag))


def run_noisy(c):
    r = rng(c["seed"])
    seed_all(c["seed"])
    n, o = c["n_in"], c["n_out"]
    lin = nn.Linear(n, o, bias=c["bias"])
    kw = {} if c["sigma"] is None else dict(sigma_scale=c["sigma"])
    m = pnn.FactorizedNoisyLinear(lin, **kw)
    s0 = 0.4 if c["sigma"] is None else c["sigma"]
    require_close(m.sigma.weight, np.full((o, n), s0 / math.sqrt(n)), "initial noise scale",
                  rtol=1e-5)
    require(float(m.mu.weight.abs().max()) <= 1 / math.sqrt(n) + 1e-6,
            "initial weights leave +-1/sqrt(inputs)")
    require_eq(m.mu.bias is not None, c["bias"], "bias")
    if c["double"]:
        m.double()
    m.train(not c["ev"])
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.as_tensor(r.randn(*p.shape)))
    W, SW = m.mu.weight.detach().double().numpy(), m.sigma.weight.detach().double().numpy()
    b = m.mu.bias.detach().double().numpy() if c["bias"] else 0
    SB = m.sigma.bias.detach().double().numpy() if c["bias"] else None
    probe = torch.as_tensor(np.concatenate([np.zeros((1, n)), np.eye(n)])).to(
        torch.float64 if c["double"] else torch.float32)
    T = 300
    eys, exs, Ns = [], [], []
    for t in range(T):
        y = m(probe).detach().double().numpy()
        bb = y[0]
        N = ((y[1:] - bb).T - W) / SW
        Ns.append(N)
        if c["bias"]:
            ey = (bb - b) / SB
            eys.append(ey)
            i = int(np.abs(ey).argmax())
            ex = N[i] / ey[i]
            exs.append(ex)
            want = np.outer(ey, ex)
        else:
            require(np.abs(bb).max() == 0, "a layer without bias shifts its output")
            i, j = np.unravel_index(np.abs(N).argmax(), N.shape)
            want = np.outer(N[:, j], N[i]) / N[i, j]
        amp = 1 / np.abs(SW)
        tol = (2e-3 if not c["double"] else 1e-8) * (1 + amp + np.abs(want)) * 5
        if c["bias"] and not c["double"]:
            tol = tol * (1 + 1 / np.abs(SB).min())
        require(np.all(np.abs(N - want) <= tol), "the weights' noise %s is no product of input and output "
                "noise %s", N, want)
    # law of sign(r) sqrt|r|
    if c["bias"] and (c["double"] or np.abs(SB).min() > 0.05):
        e = np.stack(eys)
        zero = probe[:1]
        with torch.no_grad():
            pool = np.stack([(m(zero)[0].double().numpy() - b) / SB for _ in range(2000)]).ravel()
        for z in (-1.2, -0.6, -0.3, 0.0, 0.4, 0.8, 1.3):
            q = phi(math.copysign(z * z, z))
            cnt = int((pool <= z).sum())
            require_freq([cnt, len(pool) - cnt], [q, 1 - q], len(pool), "noise at %g" % z)
        for j in range(o):
            for z in (-1.2, -0.6, 0.0, 0.4, 0.9, 1.3):
                q = phi(math.copysign(z * z, z))
                cnt = int((e[:, j] <= z).sum())
                require_freq([cnt, T - cnt], [q, 1 - q], T, "output noise")
            require_freq([int(((e[1:, j] > 0) & (e[:-1, j] > 0))[::2].sum())], [0.25],
                         len(e[1:][::2]), "independence of the noise of two passes")
        for j in range(o - 1):
            require_freq([int(((e[:, j] > 0) & (e[:, j + 1] > 0)).sum())], [0.25], T,
                         "independence of the noise of two outputs")
        if c["double"]:
            x = np.stack(exs)
            for j in range(n):
                for z in (-0.9, 0.0, 0.7):
                    q = phi(math.copysign(z * z, z))
                    cnt = int((x[:, j] <= z).sum())
                    require_freq([cnt, T - cnt], [q, 1 - q], T, "input noise")
                require_freq([int(((x[:, j] > 0) & (e[:, 0] > 0)).sum())], [0.25], T,
                             "independence of input and output noise")
    N = np.stack(Ns)
    for ix in np.ndindex(o, n):
        require_freq([int((N[(slice(None),) + ix] > 0).sum())], [0.5], T, "sign of the noise")
    # gradients reach both means and scales
    y = m(probe)
    y.sum().backward()
    for nm, p in m.named_parameters():
        require(p.grad is not None and (nm.startswith("mu") is False or float(
            p.grad.abs().sum()) > 0), "no gradient for %s", nm)
    return {"bias" if c["bias"] else "nobias"} | ({"nontrivial"} if n > 1 and o > 1 else set())


@st.composite
def convert(draw):
    def node(d):
        out = []
        for k in draw(st.lists(pick(["linear", "nobias", "tanh", "conv", "gru", "bn", "branched",
                                     "tree", "mlp", "mlpbn"]), min_size=1, max_size=4)):
            out.append([k, node(d + 1)] if k in ("tree", "branched") and d < 2 else
                       ["linear" if k in ("tree", "branched") else k])
        return out
    return dict(tree=node(0), sigma=draw(pick([None, 0.25])), seed=draw(seeds))


def run_convert(c):
    r = rng(c["seed"])
    seed_all(c["seed"])

    def build(spec):
        mods = []
        for it in spec:
            k = it[0]
            i, o = int(r.randint(1, 4)), int(r.randint(1, 4))
            mods.append(nn.Linear(i, o) if k == "linear" else nn.Linear(i, o, bias=False)
                        if k == "nobias" else nn.Tanh() if k == "tanh" else nn.Conv2d(1, 1, 2)
                        if k == "conv" else nn.GRU(i, o) if k == "gru" else nn.BatchNorm1d(i)
                        if k == "bn" else pnn.MLP(i, o, [3] * (i - 1)) if k == "mlp"
                        else pnn.mlp_bn.MLPBN(i, o, [2] * (o - 1)) if k == "mlpbn" else pnn.Branched(*build(it[1])) if k == "branched"
                        else nn.Sequential(*build(it[1])))
        return mods
    m = nn.Sequential(*build(c["tree"]))
    old = dict(m.named_modules())
    kw = {} if c["sigma"] is None else dict(sigma_scale=c["sigma"])
    require(pnn.to_factorized_noisy(m, **kw) is None, "to_factorized_noisy returns something")
    new = dict(m.named_modules())
    count = 0
    for k, x in old.items():
        y = new.get(k)
        require(y is not None, "module %r vanished", k)
        if isinstance(x, nn.Linear):
            count += 1
            require(isinstance(y, pnn.FactorizedNoisyLinear), "linear layer %r became %s", k,
                    type(y).__name__)
            require_eq((tuple(y.mu.weight.shape), y.mu.bias is not None),
                       (tuple(x.weight.shape), x.bias is not None), "size of layer " + k)
            s0 = 0.4 if c["sigma"] is None else c["sigma"]
            require_close(y.sigma.weight, np.full(x.weight.shape, s0 / math.sqrt(
                x.weight.shape[1])), "noise scale of " + k, rtol=1e-5)
        else:
            require(y is x, "module %r was replaced", k)
    return {"nontrivial"} if count > 1 else set()


# ------------------------------------------------------------------ blocks
BLOCKS = ["tril", "bound", "boundmod", "mlp", "branched", "lambda", "lecun", "chainer"]


@st.composite
def blocks(draw):
    return dict(block=draw(pick(BLOCKS)), B=draw(spread(1, 4)), n=draw(spread(1, 5)),
                o=draw(spread(1, 4)), seed=draw(seeds), double=draw(flag),
                hidden=draw(st.lists(spread(1, 5), max_size=3)),
                wscale=draw(pick([None, 0.1, 1.0])), nonlin=draw(pick(["default", "tanh"])),
                scalar=draw(flag))


def run_blocks(c):
    r = rng(c["seed"])
    seed_all(c["seed"])
    B, n, o, k = c["B"], c["n"], c["o"], c["block"]
    dt = torch.float64 if c["double"] else torch.float32
    labels = {"block:" + k} | ({"nontrivial"} if B > 1 and n > 1 else set())
    if k == "tril":
        dg = torch.tensor(r.randn(B, n), dtype=dt, requires_grad=True)
        nd = torch.tensor(r.randn(B, n * (n - 1) // 2), dtype=dt, requires_grad=True)
        y = lower_triangular_matrix(dg, nd)
        want = np.zeros((B, n, n))
        for b in range(B):
            i = 0
            for p in range(n):
                want[b, p, p] = dg[b, p]
                for q in range(p):
                    want[b, p, q] = nd[b, i]
                    i += 1
        require_close(y, want, "lower triangular matrix", rtol=0 if c["double"] else 1e-6,
                      atol=0 if c["double"] else 1e-7)
        require_eq(y.dtype, dt, "type of the matrix")
        w = torch.as_tensor(r.randn(B, n, n)).to(dt)
        (y * w).sum().backward()
        require_close(dg.grad, np.stack([np.diag(x) for x in w.numpy()]), "gradient of the "
                      "diagonal", rtol=1e-6)
        if n > 1:
            ii = np.tril_indices(n, -1)
            require_close(nd.grad, w.numpy()[:, ii[0], ii[1]], "gradient of the rest", rtol=1e-6)
    elif k in ("bound", "boundmod"):
        x = r.randn(B, n) * 3
        lo, hi = -r.uniform(0.1, 3, n).astype(np.float32), r.uniform(0.1, 3, n).astype(np.float32)
        if c["seed"] % 3 == 0:
            lo, hi = lo * 1000, hi * 700
        elif c["seed"] % 3 == 1:
            lo, hi = lo + 7, hi + 9
        if c["scalar"]:
            lo, hi = -0.5, 2
        xt = torch.tensor(x, dtype=dt)
        y = bound_by_tanh(xt, lo, hi) if k == "bound" else pnn.BoundByTanh(lo, hi)(xt)
        want = np.asarray(lo, float) + (np.tanh(xt.numpy().astype(float)) + 1) / 2 * (
            np.asarray(hi, float) - np.asarray(lo, float))
        big = float(np.abs(np.concatenate([np.ravel(lo), np.ravel(hi)])).max())
        require_close(y, want, "bounded value", rtol=1e-5, atol=1e-6, scale=big)
        require(bool(np.all(y.numpy() >= np.asarray(lo) - 1e-6 * (1 + big)) and np.all(
            y.numpy() <= np.asarray(hi) + 1e-6 * (1 + big))), "value outside of the bounds")
    elif k == "mlp":
        kw = {} if c["nonlin"] == "default" else dict(nonlinearity=torch.tanh)
        if c["wscale"] is not None:
            kw["last_wscale"] = c["wscale"]
        hid = c["hidden"] if c["scalar"] else tuple(c["hidden"])
        m = pnn.MLP(n, o, hid, **kw)
        for nm, p in m.named_parameters():
            if nm.endswith("bias"):
                require(float(p.abs().max()) == 0, "initial bias %s is not zero", nm)
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(torch.as_tensor(r.randn(*p.shape)))
        x = r.randn(B, n)
        y = m(torch.tensor(x, dtype=torch.float32))
        h = np.asarray(x, np.float32).astype(float)
        lin = [l_ for l_ in m.modules() if isinstance(l_, nn.Linear)]
        require_eq(sorted(tuple(l_.weight.shape) for l_ in lin), sorted(
            zip(list(c["hidden"]) + [o], [n] + list(c["hidden"]))), "layer sizes")
        p = {a: b_.detach().double().numpy() for a, b_ in m.named_parameters()}
        for i in range(len(c["hidden"])):
            h = h @ p["hidden_layers.%d.weight" % i].T + p["hidden_layers.%d.bias" % i]
            h = np.maximum(h, 0) if c["nonlin"] == "default" else np.tanh(h)
        h = h @ p["output.weight"].T + p["output.bias"]
        require_close(y, h, "MLP output", rtol=1e-4, atol=1e-4)
    elif k == "branched":
        mods = [nn.Linear(n, i + 1) for i in range(o)]
        m = pnn.Branched(*mods)
        x = torch.tensor(r.randn(B, n), dtype=torch.float32)
        ys = m(x)
        require(isinstance(ys, tuple) and len(ys) == o, "Branched returns %r", type(ys))
        for y, f in zip(ys, mods):
            require(torch.equal(y, f(x)), "the outputs of the branches are mixed up")
        require_eq(len(list(m.parameters())), 2 * o, "parameters of all branches")
    elif k == "lambda":
        f = pnn.Lambda(lambda x: x * 2 + 1)
        x = torch.tensor(r.randn(B, n))
        require(torch.equal(f(x), x * 2 + 1), "Lambda")
        require(torch.equal(nn.Sequential(f, f)(x), (x * 2 + 1) * 2 + 1), "Lambda in Sequential")
    else:
        # initializers: std scale / sqrt(fan in), zero mean, by the frequencies of the distribution function
        if c["scalar"]:
            layer, fan = nn.Conv2d(3, 20 * o, (2, n)), 6 * n
        else:
            layer, fan = nn.Linear(n * 4, 150, bias=c["double"]), n * 4
        if k == "lecun":
            s = 1.0 if c["wscale"] is None else c["wscale"]
            kw = {} if c["wscale"] is None else dict(scale=s)
            before = None if layer.bias is None else layer.bias.detach().clone()
            init_lecun_normal(layer.weight, **kw)
            require(before is None or torch.equal(layer.bias, before), "the bias was initialized")
        else:
            s = 1.0
            require(init_chainer_default(layer) is layer, "the layer is not returned")
            if layer.bias is not None:
                require(float(layer.bias.abs().max()) == 0, "the bias is not zero")
        w = layer.weight.detach().double().numpy().ravel() / (s / math.sqrt(fan))
        for z in (-1.4, -0.5, 0.0, 0.8, 1.6):
            cnt = int((w <= z).sum())
            require_freq([cnt, len(w) - cnt], [phi(z), 1 - phi(z)], len(w), "initial weights")
        if k == "chainer":
            bn = nn.BatchNorm1d(3)
            nn.init.constant_(bn.weight, 2.5)
            init_chainer_default(bn)
            require(float((bn.weight - 2.5).abs().max()) == 0, "another layer was initialized")
    return labels


QUICK_SCALE = 3

SUBS = [
    Sub("heads", heads(), run_heads, quick=300, thorough=10000, shards=2, axis=("head", HEADS)),
    Sub("mode", modes(), run_mode, quick=220, thorough=10000, axis=("kind", MODES)),
    Sub("delta", deltas(), run_delta, quick=200, thorough=4000),
    Sub("noisy", noisy(), run_noisy, quick=100, thorough=4000),
    Sub("convert", convert(), run_convert, quick=150, thorough=4000),
    Sub("blocks", blocks(), run_blocks, quick=320, thorough=10000, axis=("block", BLOCKS)),
]
