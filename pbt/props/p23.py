"""P23: exploration follows the configured schedule and distribution."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import zoo
from pbt.core import Sub, require, require_close, require_eq, require_freq, rng, seed_all
from pbt.gens import flag, pick, seeds, sized_list, spread, tup

from pfrl import action_value, explorers
from pfrl.explorer import Explorer

RULE = """'schedule': epsilon at a history of step numbers (in any order) against the closed formula, and the share of
random actions in thousands of draws at each of two step numbers. 'boltzmann', 'gaussian', 'ou': samples of the explorer's actions against
the documented law (frequencies, distribution function at generated points, clipping masses, independence of
innovations), every comparison by Bernstein's inequality at 1e-11. 'agent': agents over generated histories with a
recording explorer: every training action is the explorer's answer at the right step number for the right greedy action and values, and
evaluation never explores. 'policy': agents with a stochastic policy, learning: the values of the current
policy's distribution function at the actions (randomized for discrete ones) are uniform and independent over steps, environments and
elements; deterministic evaluation takes the mode ('deterministic': many short histories of that). Non-trivial: epsilon strictly between its ends, more than one action with
probability over 1 %, noise scale over 0, an evaluation phase or more than one environment, 200 draws from the policy."""
ASSUMPTIONS = ["sampling checks fail on correct code with probability below 1e-8 per run"]
N = 6000


def phi(z):
    return 0.5 * (1 + math.erf(z / math.sqrt(2)))


# ------------------------------------------------------------------ schedules
@st.composite
def schedule(draw):
    eps = st.one_of(pick([0.0, 1.0, 0.1, 0.5]), st.floats(0, 1).map(lambda x: round(x, 4)))
    return dict(kind=draw(pick(["constant", "linear", "exponential"])), start=draw(eps),
                end=draw(eps), decay_steps=draw(pick([0, 1, 2, 7, 100, 10 ** 6])),
                decay=draw(pick([0.5, 0.9, 0.99, 0.9999])),
                ts=draw(st.lists(st.one_of(st.integers(0, 30), st.integers(0, 2 * 10 ** 6),
                                           pick([99, 100, 101, 999999, 10 ** 6, 10 ** 6 + 1])),
                                 min_size=2, max_size=8)), seed=draw(seeds),
                nactions=draw(spread(1, 4)))


def want_eps(c, t):
    if c["kind"] == "constant":
        return c["start"]
    if c["kind"] == "linear":
        if t >= c["decay_steps"]:
            return c["end"]
        f = t / c["decay_steps"]
        return c["start"] * (1 - f) + c["end"] * f
    return max(c["start"] * c["decay"] ** t, c["end"])


def run_schedule(c):
    seed_all(c["seed"])
    log = []

    def rnd():
        log.append("r")
        return ("random", len(log))

    kind = c["kind"]
    if kind == "constant":
        ex = explorers.ConstantEpsilonGreedy(c["start"], rnd)
    elif kind == "linear":
        ex = explorers.LinearDecayEpsilonGreedy(c["start"], c["end"], c["decay_steps"], rnd)
    else:
        ex = explorers.ExponentialDecayEpsilonGreedy(c["start"], c["end"], c["decay"], rnd)
    labels = set(["kind:" + kind])
    lo, hi = min(c["start"], c["end"]), max(c["start"], c["end"])
    for i, t in enumerate(c["ts"]):
        want = want_eps(c, t)
        greedy = ("greedy", i)
        if kind != "constant":
            require_close(ex.compute_epsilon(t), want, "epsilon at step %d" % t, rtol=1e-9,
                          atol=1e-12)
            if not (kind == "exponential" and c["end"] > c["start"]):
                require(lo - 1e-12 <= ex.compute_epsilon(t) <= hi + 1e-12,
                        "epsilon %r at step %d leaves [%r, %r]", ex.compute_epsilon(t), t, lo, hi)
        a = ex.select_action(t, lambda: greedy)
        require(a == greedy or (log and a == ("random", len(log))),
                "the explorer returns %r, neither greedy nor the random action", a)
        require_close(ex.epsilon, want, "explorer.epsilon after step %d" % t, rtol=1e-9,
                      atol=1e-12)
        if 0 < want < 1:
            labels.add("inside")
        if lo < want < hi:
            labels.add("nontrivial")
        if i < 2:
            n = 0
            for _ in range(N):
                n += ex.select_action(t, lambda: greedy)[0] == "random"
            if want in (0, 1):
                require_eq(n, int(want * N), "random actions in %d draws with epsilon %g"
                           % (N, want))
            require_freq([N - n, n], [1 - want, want], N, "greedy/random actions at step %d" % t)
    if kind == "constant" and 0 < c["start"] < 1:
        labels.add("nontrivial")
    # and no more is lost: with a value as action_value it behaves the same
    return labels


# ------------------------------------------------------------------ soft-max
@st.composite
def boltz(draw):
    return dict(n=draw(spread(1, 6)), T=draw(pick([0.0005, 0.01, 0.1, 0.5, 1.0, 2.0, 50.0])),
                scale=draw(pick([0.0, 0.0005, 0.3, 1.0, 10.0, 1000.0])), off=draw(pick([0, 0, 0, 500, -500])),
                seed=draw(seeds), form=draw(pick(["discrete", "quantile"])))


def run_boltz(c):
    r = rng(c["seed"])
    seed_all(c["seed"])
    q = (r.randn(1, c["n"]) * c["scale"] + c["off"]).astype(np.float32)
    if c["form"] == "quantile":
        z = torch.as_tensor(np.stack([q * 1 + d for d in (-1, 0, 1)], 1))
        av = action_value.QuantileDiscreteActionValue(z)
        q = z.mean(1).numpy()
    else:
        av = action_value.DiscreteActionValue(torch.as_tensor(q.copy(), ).requires_grad_())
    ex = explorers.Boltzmann(T=c["T"]) if c["T"] != 1 else explorers.Boltzmann()
    x = q.astype(np.float64)[0] / c["T"]
    p = np.exp(x - x.max())
    p /= p.sum()
    counts = np.zeros(c["n"])
    n = 4000
    calls = []

    def greedy():
        calls.append(1)
        return int(q[0].argmax())
    for t in range(n):
        counts[int(ex.select_action(t * 1000, greedy, action_value=av))] += 1
    # float32 arithmetic of q / T moves p by about |q / T| * 1e-7
    slack = float(np.abs(x).max()) * 3e-7 * n
    pp = np.clip(p, 0, 1)
    if slack < 20:
        require_freq(counts, pp, n, "actions at temperature %g" % c["T"])
    require_eq(av.q_values.detach().numpy(), q, "the values after exploration")
    return {"nontrivial"} if (p > 0.01).sum() > 1 else set()


# ------------------------------------------------------------------ gaussian
@st.composite
def gauss(draw):
    k = draw(spread(1, 3))
    bound = st.one_of(st.none(), pick([0.3, 1.0]), st.just("array"))
    return dict(k=k, scale=draw(pick([0.0, 0.1, 1.0, "array"])), low=draw(bound),
                high=draw(bound), seed=draw(seeds), two=draw(flag))


def run_gauss(c):
    r = rng(c["seed"])
    seed_all(c["seed"])
    k = c["k"]
    scale = r.uniform(0.05, 1, k).astype(np.float32) if c["scale"] == "array" else c["scale"]
    low = (-r.uniform(0.2, 1, k).astype(np.float32) if c["low"] == "array"
           else None if c["low"] is None else -c["low"])
    high = (r.uniform(0.2, 1, k).astype(np.float32) if c["high"] == "array" else c["high"])
    ex = explorers.AdditiveGaussian(scale, low=low, high=high)
    shape = (2, k) if c["two"] else (k,)
    a = r.uniform(-0.5, 0.5, shape).astype(np.float32)
    a0 = a.copy()
    m = 3000
    out = np.stack([ex.select_action(i, lambda: a) for i in range(m)]).astype(np.float64)
    require_eq(a, a0, "the greedy action after exploration")
    require_eq(out.shape, (m,) + shape, "shape of the noisy actions")
    sc = np.broadcast_to(np.asarray(scale, float), shape)
    lo = np.broadcast_to(-np.inf if low is None else np.asarray(low, np.float32), shape)
    hi = np.broadcast_to(np.inf if high is None else np.asarray(high, np.float32), shape)
    require(np.all(out >= lo - 1e-7) and np.all(out <= hi + 1e-7),
            "a noisy action leaves the bounds: %s", out[(out < lo - 1e-7) | (out > hi + 1e-7)][:3])
    signs = []
    for ix in np.ndindex(shape):
        x, s = out[(slice(None),) + ix], sc[ix]
        mu = float(a[ix])
        if s == 0:
            require_close(x, np.full(m, np.clip(mu, lo[ix], hi[ix])), "action without noise",
                          rtol=1e-6, atol=1e-6)
            continue
        for z in (-2.2, -1.1, -0.4, 0.0, 0.7, 1.3, 2.4):
            v = mu + z * s
            if lo[ix] <= v < hi[ix] - 1e-6:
                n = int((x <= v).sum())
                require_freq([n, m - n], [phi(z), 1 - phi(z)], m,
                             "element %s at %g standard deviations" % (ix, z))
        for b in (lo[ix], hi[ix]):
            if np.isfinite(b):
                n = int((np.abs(x - b) < 1e-7).sum())
                q = phi((b - mu) / s) if b == lo[ix] else 1 - phi((b - mu) / s)
                require_freq([n, m - n], [q, 1 - q], m, "element %s at its bound %g" % (ix, b))
        if lo[ix] < mu < hi[ix]:
            signs.append(x > mu)
            n = int((signs[-1][1:] & signs[-1][:-1])[::2].sum())
            require_freq([n], [0.25], len(signs[-1][1:][::2]), "independence of successive draws")
    for i in range(len(signs) - 1):
        n = int((signs[i] & signs[i + 1]).sum())
        require_freq([n], [0.25], m, "independence of the noise of two elements")
    return {"nontrivial"} if np.any(sc > 0) else set()


# ------------------------------------------------------------------ Ornstein-Uhlenbeck
@st.composite
def ou(draw):
    return dict(mu=draw(pick([0.0, 0.5, -2.0])), theta=draw(pick([0.15, 0.01, 0.5, 1.0, 1.5])),
                sigma=draw(pick([0.3, 0.0, 1.0, "array"])), start=draw(flag), T=draw(spread(2, 8)),
                seed=draw(seeds), k=draw(spread(1, 3)))


def run_ou(c):
    """The action has M rows, so that one explorer carries M independent processes."""
    r = rng(c["seed"])
    seed_all(c["seed"])
    M, k = 1500, c["k"]
    sigma = r.uniform(0.1, 1, k) if c["sigma"] == "array" else c["sigma"]
    ex = explorers.AdditiveOU(mu=c["mu"], theta=c["theta"], sigma=sigma,
                              start_with_mu=c["start"])
    X, acts = [], []
    for t in range(c["T"]):
        a = r.uniform(-1, 1, (M, k)).astype(np.float32)
        a0 = a.copy()
        out = ex.select_action(t, lambda: a)
        require_eq(a, a0, "the greedy action after exploration")
        acts.append((out, np.array(out)))
        X.append(np.asarray(out, float) - a)
    for i, (o, kept) in enumerate(acts):
        require_eq(o, kept, "the action returned at step %d, looked at later" % i)
    sg = np.broadcast_to(np.asarray(sigma, float), (k,))
    th = c["theta"]

    def law(e, s, what):
        for j in range(k):
            if s[j] == 0:
                require(np.abs(e[:, j]).max() < 1e-4, "%s with scale 0 reaches %g", what,
                        np.abs(e[:, j]).max())
                continue
            for z in (-1.6, -0.8, 0.0, 0.5, 1.4):
                n = int((e[:, j] <= z * s[j]).sum())
                require_freq([n, M - n], [phi(z), 1 - phi(z)], M,
                             "%s, %g standard deviations" % (what, z))

    if c["start"]:
        require_close(X[0], np.full((M, k), c["mu"]), "noise of the first action", atol=1e-5)
    else:
        law(X[0] - c["mu"], sg / math.sqrt(2 * th - th ** 2), "noise of the first action")
    prev = None
    for t in range(1, c["T"]):
        e = X[t] - X[t - 1] - th * (c["mu"] - X[t - 1])
        law(e, sg, "innovation at step %d" % t)
        for j in range(k):
            if sg[j] > 0:
                other = [(X[t - 1][:, j] > c["mu"], "the state")] if (
                    t > 1 or not c["start"]) else []
                if prev is not None:
                    other.append((prev[:, j] > 0, "the previous innovation"))
                if j:
                    other.append((e[:, j - 1] > 0, "the innovation of another element"))
                for o, what in other:
                    require_freq([int(((e[:, j] > 0) & o).sum())], [0.25], M,
                                 "independence of the innovation of " + what)
        prev = e
    return {"nontrivial"} if np.any(sg > 0) else set()


# ------------------------------------------------------------------ use by agents
class Rec(Explorer):
    def __init__(self, inner):
        self.inner, self.calls = inner, []

    def select_action(self, t, greedy_action_func, action_value=None):
        got = []

        def g():
            a = greedy_action_func()
            got.append(np.array(a))
            return a
        a = self.inner.select_action(t, g, action_value=action_value)
        self.calls.append((t, np.array(greedy_action_func()), action_value, np.array(a)))
        return a

    def __repr__(self):
        return "Rec"


AGENTS = [a for a in zoo.DISCRETE if a != "IQN"] + ["DDPG", "TD3"]


@st.composite
def agent_case(draw):
    return dict(agent=draw(pick(AGENTS)), cfg=draw(zoo.config()), seed=draw(seeds), offset=draw(pick([0, 0, 3, 50])),
                rows=draw(sized_list(tup(st.integers(0, 63), pick(["train"] * 4 + ["eval"])),
                                     4, 25)))


def run_agent(c):
    name, cfg = c["agent"], zoo.fix(c["agent"], dict(c["cfg"], noisy=False))
    seed_all(c["seed"])
    ag = zoo.make(name, cfg)
    ex = ag.explorer = Rec(ag.explorer)
    n_env = cfg["n_env"]
    rows = [r[0] if r[0] < 16 else 0 for r in c["rows"]]
    steps = zoo.world(c["seed"], n_env, rows)
    t = ag.t = c["offset"]  # as the training functions do
    labels = {"agent:" + name}
    cont = name in ("DDPG", "TD3")
    model = ag.policy if cont else ag.model
    burnt = []
    if cont and ag.burnin_action_func is not None:
        f = ag.burnin_action_func

        def burn():
            burnt.append(f())
            return burnt[-1]
        ag.burnin_action_func = burn
    updated = 0

    def count(*a, **k):
        nonlocal updated
        updated += 1
    opt = ag.actor_optimizer if name == "DDPG" else ag.policy_optimizer if cont else None
    if opt is not None:
        opt.register_step_post_hook(count)
    for (obs, rew, nxt, done, reset), (_, mode) in zip(steps, c["rows"]):
        with torch.no_grad():
            out = model(torch.as_tensor(np.stack(obs)))
        if cont:
            greedy = out.sample().numpy()
            q = None
        else:
            greedy, q = out.greedy_actions.numpy(), out.q_values.numpy()
        before = len(ex.calls)
        nb = len(burnt)
        if mode == "eval":
            with ag.eval_mode():
                acts = ag.batch_act(obs)
                require_eq(len(ex.calls), before, "explorer calls during evaluation")
                require_eq(len(burnt), nb, "burn-in actions during evaluation")
                require_close(np.stack(acts), greedy, "evaluation action", atol=1e-5)
                ag.batch_observe(nxt, rew, [False] * n_env, [True] * n_env)
            labels.add("nontrivial")
            continue
        acts = ag.batch_act(obs)
        new = ex.calls[before:]
        if cont and cfg["burnin"] and updated == 0:
            require(len(new) == 0 and len(burnt) - nb == n_env,
                    "burn-in: %d explorer calls and %d burn-in actions for %d environments",
                    len(new), len(burnt) - nb, n_env)
            require_eq(np.stack(acts), np.stack(burnt[nb:]), "burn-in actions")
            labels.add("burnin")
        else:
            require_eq(len(burnt), nb, "burn-in actions after the first update")
            require_eq(len(new), n_env, "explorer calls for %d environments" % n_env)
            for i, (tt, g, av, a) in enumerate(new):
                require_eq(int(tt), t, "step number given to the explorer")
                require_close(g, greedy[i], "greedy action offered for environment %d" % i,
                              atol=1e-5)
                require_eq(np.array(acts[i]), a, "action of environment %d" % i)
                if q is not None:
                    require_close(av.q_values.numpy(), q[i:i + 1],
                                  "values offered for environment %d" % i, atol=1e-5)
        ag.batch_observe(nxt, rew, done, reset)
        t += n_env
    if n_env > 1:
        labels.add("nontrivial")
    return labels


# ------------------------------------------------------------------ agents whose policy explores
POLICY = ["SAC", "SACauto", "PPO", "PPOc", "TRPO", "A2C", "A2Cc", "A3C", "REINFORCE", "ACER", "ACERc"]


@st.composite
def policy_case(draw):
    return dict(agent=draw(pick(POLICY)), cfg=draw(zoo.config()), seed=draw(seeds), ends=draw(pick([3, 9, 40])),
                evals=draw(pick([0, 3, 10])), draws=draw(pick([400, 520])))


@st.composite
def det_case(draw):
    c = draw(policy_case())
    return dict(c, det=True, evals=1, draws=24)


def current_policy(ag, name, obs):
    """The distribution the agent's own network gives for these observations."""
    x = torch.as_tensor(np.stack(obs))
    if getattr(ag, "obs_normalizer", None) is not None:
        x = ag.obs_normalizer(x, update=False)
    with torch.no_grad():
        if name.startswith("SAC") or name == "TRPO":
            return ag.policy(x)
        if name == "ACERc":
            return ag.model.pi(x)
        out = ag.model(x)
    return out[0] if isinstance(out, tuple) else out


def params(d):
    """("discrete", probabilities) or ("normal", mean, scale), whatever wraps the distribution."""
    if isinstance(d, torch.distributions.TransformedDistribution):
        return params(d.base_dist)
    if isinstance(d, torch.distributions.Independent):
        return params(d.base_dist)
    if isinstance(d, torch.distributions.Categorical):
        return "discrete", d.probs.numpy()
    return "normal", d.mean.numpy(), d.stddev.numpy()


def run_policy(c):
    name = c["agent"]
    cfg = zoo.fix(name, c["cfg"])
    if c.get("det"):
        cfg["det"] = True
    seed_all(c["seed"])
    ag = zoo.make(name, cfg, extra=dict(act_deterministically=cfg["det"]))
    for v in vars(ag).values():
        if isinstance(v, torch.optim.Optimizer):  # the policy has to stay one that really samples
            for g in v.param_groups:
                g["lr"] *= 0.01
    sac, single = name.startswith("SAC"), name in zoo.SINGLE
    n_env = cfg["n_env"]
    r = rng(c["seed"] + 1)
    total = -(-c["draws"] // n_env)
    rows = [int(r.randint(16)) if r.randint(c["ends"]) == 0 else 0 for _ in range(total)]
    burnt, updated = [], [0]
    if sac:
        f = ag.burnin_action_func
        if f is not None:
            ag.burnin_action_func = lambda: burnt.append(f()) or burnt[-1]
        ag.policy_optimizer.register_step_post_hook(lambda *a, **k: updated.__setitem__(0, updated[0] + 1))
    U = dict(train=[], eval=[])
    labels = {"agent:" + name}

    def transform(d, acts):
        """Uniform and independent exactly if the actions were drawn from d."""
        kind, *p = params(d)
        if kind == "discrete":
            (p,) = p
            return [[p[i][:int(a)].sum() + r.rand() * p[i][int(a)]] for i, a in enumerate(acts)]
        a = np.stack(acts).astype(float)
        if sac:
            a = np.arctanh(np.clip(a, -1 + 1e-7, 1 - 1e-7))
        return [[phi((x - m) / s) for x, m, s in zip(*w)] for w in zip(a, *p)]

    def act(obs):
        return [np.array(x) for x in ([ag.act(obs[0])] if single else ag.batch_act(obs))]

    for k, (obs, rew, nxt, done, reset) in enumerate(zoo.world(c["seed"], n_env, rows)):
        if c["evals"] and r.randint(c["evals"]) == 0:
            d, nb = current_policy(ag, name, obs), len(burnt)
            with ag.eval_mode():
                acts = act(obs)
                if single:
                    ag.observe(nxt[0], rew[0], False, True)
                else:
                    ag.batch_observe(nxt, rew, [False] * n_env, [True] * n_env)
            require_eq(len(burnt), nb, "burn-in actions during evaluation")
            if cfg["det"]:
                kind, *p = params(d)
                if kind == "discrete":
                    for i, a in enumerate(acts):
                        require(p[0][i][int(a)] >= p[0][i].max() - 1e-5,
                                "deterministic action %d has probability %s", int(a), p[0][i])
                else:
                    require_close(np.stack(acts), np.tanh(p[0]) if sac else p[0], "deterministic action",
                                  rtol=1e-4, atol=1e-5)
                labels.add("deterministic")
            else:
                U["eval"].append(transform(d, acts))
        d, nb, u0 = current_policy(ag, name, obs), len(burnt), updated[0]
        acts = act(obs)
        if sac and cfg["burnin"] and u0 == 0:
            require_eq(len(burnt) - nb, n_env, "number of burn-in actions")
            require_eq(np.stack(acts), np.stack(burnt[nb:]), "burn-in actions")
            labels.add("burnin")
        else:
            require_eq(len(burnt), nb, "burn-in actions after the first update")
            U["train"].append(transform(d, acts))
        if single:
            ag.observe(nxt[0], rew[0], done[0], reset[0])
        else:
            ag.batch_observe(nxt, rew, done, reset)
    for mode, u in U.items():
        if not u:
            continue
        u = np.asarray(u)  # time, environment, element
        flat = u.reshape(-1, u.shape[2])
        what = "%s: actions in %s, " % (name, mode)
        for j in range(u.shape[2]):
            x = flat[:, j]
            require_freq(np.histogram(x, 4, (0, 1))[0], [0.25] * 4, len(x), what + "quarters of the distribution")
            for i in range(n_env):
                require_freq(np.histogram(u[:, i, j], 2, (0, 1))[0], [0.5] * 2, len(u),
                             what + "halves of the distribution, environment %d" % i)
        h = u > 0.5
        pairs = [(h[1:], h[:-1], "of the step before")] if len(h) > 1 else []
        if n_env > 1:
            pairs.append((h[:, 1:], h[:, :-1], "of another environment"))
        if u.shape[2] > 1:
            pairs.append((h[:, :, 1:], h[:, :, :-1], "of another element"))
        for a, b, other in pairs:
            n = a.size
            # whether neighbouring fair bits agree: again fair and independent
            require_freq([int((a == b).sum())], [0.5], n, what + "independence " + other)
        if mode == "train" and len(flat) >= 200:
            labels.add("nontrivial")
    if c.get("det") and n_env > 1:
        labels.add("nontrivial")
    return labels


SUBS = [
    Sub("schedule", schedule(), run_schedule, quick=240, thorough=6000, shards=2,
        axis=("kind", ["constant", "linear", "linear", "exponential"])),
    Sub("boltzmann", boltz(), run_boltz, quick=110, thorough=1500, shards=2),
    Sub("gaussian", gauss(), run_gauss, quick=150, thorough=4000),
    Sub("ou", ou(), run_ou, quick=250, thorough=8000),
    Sub("agent", agent_case(), run_agent, quick=240, thorough=8000, shards=2,
        axis=("agent", AGENTS + ["DDPG", "TD3"] * 2)),
    Sub("policy", policy_case(), run_policy, quick=66, thorough=2000, shards=3, axis=("agent", POLICY)),
    Sub("deterministic", det_case(), run_policy, quick=220, thorough=6000, shards=2, axis=("agent", POLICY)),
]
