"""P26: running normalization equals whole-history statistics."""
import copy
import os

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import zoo
from pbt.core import Sub, require, require_close, require_eq, rng, scratch, seed_all
from pbt.gens import flag, pick, rewards, seeds, sized_list, spread, tup

import pfrl
from pfrl.utils.reward_filter import AverageRewardFilter, NormalizedRewardFilter

RULE = """'stream': histories of batches (sizes 0-7, generated shapes, batch axis, scale and offset) fed by experience(), by
updating and by non-updating calls, with saves into another normalizer, copies and mode switches, against float64
statistics of the concatenation of everything learned until the limit. 'agents': PPO and TRPO (plain and recurrent) over generated
training and evaluation histories: the normalizer's statistics are those of the training observations consumed so far, and
every input of the model is a training or current observation under those statistics. 'filters': reward filters against
their recurrence. Non-trivial: two or more learning batches with differing sizes, an update of the agent, or two or more
rewards."""
ASSUMPTIONS = ["float32 inputs with magnitude below 1e4 (relative tolerance 1e-3 of the largest magnitude)"]


@st.composite
def streams(draw):
    op = st.one_of(tup(pick(["experience", "update", "default", "no", "experience"]),
                       pick([0, 1, 2, 3, 4, 5, 6, 7] * 3 + [40, 700, 6000])),
                   tup(pick(["save", "copy", "eval", "train", "inverse"])))
    shape = draw(pick([[], [1], [3], [2, 3], [2, 1, 2]]))
    return dict(shape=shape, axis=draw(spread(0, len(shape))),
                eps=draw(pick([None, 1e-2, 1.0, 1e-8])), dtype=draw(pick(["float32", "float64"])),
                until=draw(pick([None, None, 0, 1, 5, 12])), clip=draw(pick([None, 5, 0.5])),
                scale=draw(pick([1.0, 0.0, 100.0, 1e-3])), off=draw(pick([0.0, 10.0, -500.0])),
                intshape=draw(flag), seed=draw(seeds), ops=draw(sized_list(op, 1, 14)))


def run_streams(c):
    r = rng(c["seed"])
    shape, ax = tuple(c["shape"]), c["axis"]
    dt = np.dtype(c["dtype"])

    def new():
        kw = {} if c["eps"] is None else dict(eps=c["eps"])
        sh = shape[0] if c["intshape"] and len(shape) == 1 else shape
        return pfrl.nn.EmpiricalNormalization(sh, batch_axis=ax, dtype=dt, until=c["until"],
                                              clip_threshold=c["clip"], **kw)
    nz = new()
    eps = 1e-2 if c["eps"] is None else c["eps"]
    seen = []
    count = 0
    sizes = []
    tol = 1e-3 if dt == np.float32 else 1e-6      # the rate is a float32
    mag = abs(c["off"]) + 5 * c["scale"] + 1e-6

    def batch(n):
        x = r.randn(n, *shape) * c["scale"] + c["off"] + r.randn() * c["scale"]
        return np.moveaxis(x, 0, ax).astype(dt)

    def stats():
        if not seen:
            return np.zeros(shape), np.ones(shape)
        a = np.concatenate(seen, 0).astype(np.float64)
        return a.mean(0), a.var(0)

    def compare(what):
        m, v = stats()
        require_eq(tuple(nz.mean.shape), shape, "shape of mean")
        require_close(nz.mean, m, "mean " + what, rtol=tol, atol=1e-9, scale=mag)
        # compared as variances; the update starts from variance 1, so 1 is the scale of rounding
        f32 = dt == np.float32
        noise = (2e-6 if f32 else 1e-12) + (mag * (1e-5 if f32 else 1e-6)) ** 2
        require_close(to(nz.std).astype(float) ** 2, v, "variance " + what,
                      rtol=4e-3 if f32 else 1e-5, atol=noise,
                      scale=float(v.max()) if v.size else 1)
        require_eq(int(nz.count), count, "count " + what)

    def normal(x):
        # against the normalizer's own (already checked) statistics, to keep tolerances tight
        m = np.expand_dims(nz.mean.numpy().astype(float), ax)
        s2 = np.expand_dims(nz.std.numpy().astype(float) ** 2, ax)
        y = (x.astype(float) - m) / np.sqrt(s2 + eps)
        return y if c["clip"] is None else np.clip(y, -c["clip"], c["clip"])

    def check_out(out, x, what):
        w = normal(x)
        require_eq(tuple(out.shape), x.shape, "shape of the output")
        den = 1 / np.sqrt(eps + float(nz.std.min()) ** 2) if shape or True else 1
        require_close(out, w, what, rtol=1e-4 if dt == np.float32 else 1e-9,
                      atol=1e-5 + (mag * 1e-6 * den if dt == np.float32 else mag * 1e-10 * den),
                      scale=float(np.abs(w).max()) if w.size else 1)
        if c["clip"] is not None and w.size:
            require(float(out.abs().max()) <= c["clip"] + 1e-6, "output beyond the clip")

    def learn(x):
        nonlocal count
        if c["until"] is not None and count >= c["until"]:
            return
        n = x.shape[ax]
        if n:
            seen.append(np.moveaxis(x, ax, 0))
            count += n
            sizes.append(n)

    for op in c["ops"]:
        k = op[0]
        if k in ("experience", "update", "default", "no"):
            x = batch(op[1])
            xt = torch.as_tensor(x.copy())
            if k == "experience":
                require(nz.experience(xt) is None, "experience() returns something")
                learn(x)
            elif k == "no":
                check_out(nz(xt, update=False), x, "output of a non-updating call")
            else:
                out = nz(xt) if k == "default" else nz(xt, update=True)
                learn(x)
                check_out(out, x, "output of an updating call")
            require_eq(xt.numpy(), x, "the input after the call")
        elif k == "save":
            with scratch() as d:
                torch.save(nz.state_dict(), os.path.join(d, "n.pt"))
                n2 = new()
                if c["seed"] % 2:
                    n2.experience(torch.as_tensor(batch(3)))
                    n2(torch.as_tensor(batch(2)), update=False)
                n2.load_state_dict(torch.load(os.path.join(d, "n.pt")))
            nz = n2
        elif k == "copy":
            old, nz = nz, copy.deepcopy(nz)
            old.experience(torch.as_tensor(batch(4)))      # the original goes its own way
        elif k in ("eval", "train"):
            nz.train(k == "train")
        else:
            x = batch(3)
            y = nz(torch.as_tensor(x), update=False)
            back = nz.inverse(y)
            if c["clip"] is None:
                require_close(back, x, "inverse of the output", rtol=1e-3, atol=1e-6, scale=mag)
            else:
                inside = np.abs(normal(x)) < c["clip"] * 0.999
                require_close(to(back)[inside], x[inside], "inverse of the unclipped output",
                              rtol=1e-3, atol=1e-6, scale=mag)
            m, s = nz.mean, nz.std
            m += 1
            s += 1      # results of the accessors are the caller's
        compare("after %s" % op)
    return {"nontrivial"} if len(set(sizes)) > 1 else set()


def to(x):
    return x.detach().numpy()


# ------------------------------------------------------------------ agents
AGENTS = ["PPO", "PPOc", "RPPO", "TRPO", "RTRPO"]


@st.composite
def agent_case(draw):
    return dict(agent=draw(pick(AGENTS)), cfg=draw(zoo.config()), seed=draw(seeds),
                rows=draw(sized_list(tup(st.integers(0, 63), pick(["train"] * 5 + ["eval"])),
                                     6, 30)), scale=draw(pick([1.0, 20.0])))


def run_agent(c):
    name = c["agent"]
    cfg = zoo.fix(name, dict(c["cfg"], norm=True))
    seed_all(c["seed"])
    ag = zoo.make(name, cfg)
    nz = ag.obs_normalizer
    models = [ag.model] if name in ("PPO", "PPOc", "RPPO") else [ag.policy, ag.vf]
    inputs = []

    def hook(mod, args):
        x = args[0]
        x = x.data if isinstance(x, torch.nn.utils.rnn.PackedSequence) else x
        inputs.append(x.detach().clone().numpy().reshape(-1, 3))
    for m in models:
        m.register_forward_pre_hook(hook)
    n_env = cfg["n_env"]
    steps = zoo.world(c["seed"], n_env, [r_[0] if r_[0] < 16 else 0 for r_ in c["rows"]])
    pending, learned = [], []
    labels = {"agent:" + name}
    pool = []     # observations which may be given to the model

    def mean_var(z):
        if not z:
            return np.zeros(3), np.ones(3)
        a = np.stack(z).astype(float)
        return a.mean(0), a.var(0)

    def norm(x, z):
        m, v = mean_var(z)
        return np.clip((np.asarray(x, float) - m) / np.sqrt(v + 1e-2), -5, 5)

    def check_stats(what):
        m, v = mean_var(learned)
        require_close(nz.mean, m, "mean " + what, rtol=1e-3, atol=1e-4)
        require_close(nz.std, np.sqrt(v), "std " + what, rtol=1e-3, atol=1e-3)
        require_eq(int(nz.count), len(learned), "observations learned " + what)

    k = np.float32(c["scale"])
    for (obs, rew, nxt, done, reset), (_, mode) in zip(steps, c["rows"]):
        obs = [o * k for o in obs]
        nxt = [o * k for o in nxt]
        del inputs[:]
        if mode == "eval":
            with ag.eval_mode():
                ag.batch_act(obs)
                require_close(inputs[0], norm(np.stack(obs), learned),
                              "model input in evaluation", atol=2e-3)
                ag.batch_observe(nxt, rew, [False] * n_env, [True] * n_env)
            check_stats("after evaluation steps")
            continue
        ag.batch_act(obs)
        require_close(inputs[0], norm(np.stack(obs), learned), "model input in training",
                      atol=2e-3)
        check_stats("after act")
        del inputs[:]
        ag.batch_observe(nxt, rew, done, reset)
        pending += obs
        pool += obs + nxt
        if int(nz.count) != len(learned) or inputs:
            old = list(learned)
            if cfg["until"] is None or len(learned) < cfg["until"]:
                learned = learned + pending
            pending = []
            labels.add("nontrivial")
            check_stats("after an update")
            if learned is not old:
                ok = np.concatenate([norm(np.stack(pool), old), norm(np.stack(pool), learned)])
                for x in np.concatenate(inputs) if inputs else []:
                    e = np.abs(ok - x).max(1)
                    require(e.min() < 5e-3, "during an update the model sees %s, which is no "
                            "training observation under the normalizer's statistics", x)
            pool = []
        else:
            check_stats("after observe")
    return labels


# ------------------------------------------------------------------ reward filters
@st.composite
def filt(draw):
    return dict(tau=draw(pick([1e-3, 0.1, 0.5, 1.0])), scale=draw(pick([1, 2.5, 0.1])),
                eps=draw(pick([1e-1, 1e-3, 1.0])), rs=draw(sized_list(rewards, 1, 30)),
                defaults=draw(flag))


def run_filter(c):
    f, g = (NormalizedRewardFilter(tau=c["tau"], scale=c["scale"], eps=c["eps"]),
            AverageRewardFilter(tau=c["tau"]))
    tau, scale, eps = c["tau"], c["scale"], c["eps"]
    if c["defaults"]:
        f, g, tau, scale, eps = NormalizedRewardFilter(), AverageRewardFilter(), 1e-3, 1, 0.1
    n = len(c["rs"])
    for i, x in enumerate(c["rs"]):
        w = [tau * (1 - tau) ** (i - j) for j in range(i + 1)]
        m = sum(a * b for a, b in zip(w, c["rs"]))
        m2 = sum(a * b * b for a, b in zip(w, c["rs"]))
        require_close(g(x), x - m, "average filter, reward %d" % i, rtol=1e-6, atol=1e-9, scale=5)
        want = scale * (x - m) / np.sqrt(max(m2 - m * m, eps))
        require_close(f(x), want, "normalized filter, reward %d" % i, rtol=1e-6, atol=1e-8,
                      scale=max(1, abs(want)))
    return {"nontrivial"} if n > 1 else set()


QUICK_SCALE = 2

SUBS = [
    Sub("stream", streams(), run_streams, quick=600, thorough=40000, shards=2),
    Sub("agents", agent_case(), run_agent, quick=120, thorough=5000, shards=3,
        axis=("agent", AGENTS)),
    Sub("filters", filt(), run_filter, quick=150, thorough=5000),
]
