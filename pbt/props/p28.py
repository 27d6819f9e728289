"""P28: equal seeds give equal runs, and agents do not share hidden state."""
import copy
import os
import random

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import zoo
from pbt.core import Sub, require, require_eq, rng, scratch, seed_all
from pbt.gens import flag, pick, seeds, sized_list, spread, tup

import pfrl
from pfrl.utils.random import sample_n_k

RULE = """'runs': an agent of any of the 33 kinds, with generated settings, networks and history, is run four times from the same seeds: plainly; plainly
again; with evaluations, saves, statistics and a second agent of any kind (learning from its own history)
interleaved, the random state put back after each; and, for agents with both interfaces and one environment, through the other interface. Actions of
every step, final parameters, optimizer states and statistics must be identical; the second agent must equal its own
plain run; the arrays and lists given to the agents must be unchanged; networks run in
evaluation mode whenever the agent acts in evaluation mode, and no step or evaluation leaves any submodule in another
mode than it was. 'seeding': set_random_seed over
generated seeds and draws. Non-trivial: the agent's parameters changed and at least one event was interleaved."""
ASSUMPTIONS = ["one process and one thread; asynchronous training is scheduled by the system and not repeatable"]

EVENTS = ["eval", "save", "stats", "other", "other", "evalmany"]


@st.composite
def runs(draw):
    return dict(agent=draw(pick(zoo.ALL)), other=draw(pick(zoo.ALL)), cfg=draw(zoo.config()),
                cfg2=draw(zoo.config()), seed=draw(seeds),
                rows=draw(sized_list(tup(zoo.ROW, pick([None, None, None] + EVENTS)), 6, 26)))


class Life:
    """An agent with its history, advanced one step at a time."""

    def __init__(self, name, cfg, seed, rows, single=None):
        self.cfg = zoo.fix(name, cfg)
        self.name = name
        seed_all(seed)
        self.ag = zoo.make(name, self.cfg)
        self.steps = zoo.world(seed, self.cfg["n_env"], rows)
        self.single = (name in zoo.SINGLE) if single is None else single
        self.i = 0
        self.acts = []
        self.r = rng(seed + 1)
        if self.cfg["burnin"]:      # the user keeps a part of the network in evaluation mode
            mods = list(self.acting().modules())
            mods[seed % len(mods)].eval()
        self.modes0 = self.modes()

    def acting(self):
        return getattr(self.ag, "policy", None) or self.ag.model

    def modes(self):
        """Training flag of every submodule of the agent's networks."""
        return {(k, n): m.training for k, v in vars(self.ag).items()
                if isinstance(v, torch.nn.Module) for n, m in v.named_modules()}

    def step(self):
        s = self.steps[self.i % len(self.steps)]
        keep = copy.deepcopy(s)
        self.acts.append(zoo.step(self.ag, s, self.single))
        for a, b, what in zip(s, keep, ("observations", "rewards", "next observations", "done",
                                        "reset")):
            require(len(a) == len(b) and all(
                np.array_equal(x, y) and type(x) is type(y) for x, y in zip(a, b)),
                "the agent changes the %s it was given", what)
        self.i += 1
        self.check_modes("training")

    def check_modes(self, what):
        for k, m in self.modes().items():
            require(m == self.modes0[k], "%s puts %s.%s into %s mode", what, k[0], k[1],
                    "training" if m else "evaluation")

    def evaluate(self, n):
        ag = self.ag
        require(ag.training, "the agent is not in training mode before evaluation")
        seen = []
        hooks = [m.register_forward_pre_hook(lambda m, _: seen.append(m.training))
                 for m in self.acting().modules()]
        with ag.eval_mode():
            require(not ag.training, "eval_mode() leaves the agent in training mode")
            for k in range(n):
                obs = [self.r.randn(3).astype(np.float32) for _ in range(self.cfg["n_env"])]
                end = k == n - 1
                if self.single:
                    ag.act(obs[0])
                    ag.observe(obs[0], 1.0, end, end)
                else:
                    ag.batch_act(obs)
                    ag.batch_observe(obs, [1.0] * len(obs), [end] * len(obs), [end] * len(obs))
        for h in hooks:
            h.remove()
        require(ag.training, "the agent is not in training mode after evaluation")
        require(not any(seen),
                "acting in evaluation mode runs the network in training mode")
        self.check_modes("evaluation")

    def event(self, e, other):
        state = zoo.freeze()
        before = zoo.tensors(self.ag)
        if e == "eval":
            self.evaluate(1)
        elif e == "evalmany":
            self.evaluate(3)
        elif e == "save":
            with scratch() as d:
                self.ag.save(os.path.join(d, "a"))
        elif e == "stats":
            s = self.ag.get_statistics()
            require(all(isinstance(k, str) for k, _ in s), "statistics are not named")
            require_eq(repr(self.ag.get_statistics()), repr(s), "statistics read twice")
        elif e == "other":
            zoo.thaw(other.rng_state)
            other.step()
            other.rng_state = zoo.freeze()
        zoo.thaw(state)
        d = zoo.diff(before, zoo.tensors(self.ag))
        require(d is None, "%s changes %s of the agent", e, d)

    def end(self):
        return zoo.tensors(self.ag), [(k, repr(v)) for k, v in self.ag.get_statistics()]


def same(a, b, what):
    for i, (x, y) in enumerate(zip(a.acts, b.acts)):
        for j, (p, q) in enumerate(zip(x, y)):
            require(p.shape == q.shape and np.array_equal(p, q),
                    "%s: action %d of environment %d is %s, expected %s", what, i, j, p, q)
    (t, s), (t2, s2) = a.end(), b.end()
    d = zoo.diff(t, t2)
    require(d is None, "%s: %s differs at the end", what, d)
    require_eq(s, s2, what + ": statistics")


def plain(name, cfg, seed, rows, n, single=None):
    x = Life(name, cfg, seed, rows, single)
    for _ in range(n):
        x.step()
    return x


def run_runs(c):
    rows = [x[0] for x in c["rows"]]
    n = len(rows)
    name, cfg = c["agent"], dict(c["cfg"])
    a = plain(name, cfg, c["seed"], rows, n)
    start = Life(name, cfg, c["seed"], rows)
    moved = zoo.diff(zoo.tensors(start.ag), zoo.tensors(a.ag)) is not None
    b = plain(name, cfg, c["seed"], rows, n)
    same(a, b, "second run from the same seeds")
    # interleaved
    x = Life(name, cfg, c["seed"], rows)
    st_ = zoo.freeze()
    y = Life(c["other"], c["cfg2"], c["seed"] + 5, rows[::-1])
    y.rng_state = zoo.freeze()
    zoo.thaw(st_)
    events = 0
    for _, e in c["rows"]:
        if e:
            events += 1
            x.event(e, y)
        x.step()
    same(x, a, "run with other activity interleaved")
    if y.i:
        z = plain(c["other"], c["cfg2"], c["seed"] + 5, rows[::-1], y.i)
        same(y, z, "the interleaved agent")
    labels = {"agent:" + name}
    if name not in zoo.SINGLE and not (name.startswith("A2C")):
        cfg1 = dict(cfg, n_env=1)
        p = plain(name, cfg1, c["seed"], rows, n, single=True)
        q = plain(name, cfg1, c["seed"], rows, n, single=False)
        same(p, q, "single-environment interface")
        labels.add("both interfaces")
    if moved and events:
        labels.add("nontrivial")
    return labels


# ------------------------------------------------------------------ seeding
@st.composite
def seeding(draw):
    return dict(seed=draw(st.one_of(st.integers(0, 5), seeds, st.just(2 ** 32 - 1))),
                noise=draw(seeds), n=draw(spread(1, 20)), k=draw(spread(1, 20)))


def run_seeding(c):
    n, k = max(c["n"], c["k"]), c["k"]

    def draws():
        return (random.random(), np.random.rand(3).tolist(), torch.rand(3).tolist(),
                random.sample(range(50), 5), torch.randperm(7).tolist(),
                np.asarray(sample_n_k(n, k)).tolist())
    seed_all(c["noise"])
    pfrl.utils.set_random_seed(c["seed"])
    a = draws()
    seed_all(c["noise"] + 1)
    pfrl.utils.set_random_seed(c["seed"])
    require_eq(draws(), a, "draws after set_random_seed(%d)" % c["seed"])
    pfrl.utils.set_random_seed((c["seed"] + 1) % 2 ** 32)
    b = draws()
    require(b[0] != a[0] and b[1] != a[1] and b[2] != a[2], "two seeds give the same draws")
    return {"nontrivial"}


QUICK_SCALE = 2

SUBS = [
    Sub("runs", runs(), run_runs, quick=198, thorough=6000, shards=7, axis=("agent", zoo.ALL)),
    Sub("seeding", seeding(), run_seeding, quick=60, thorough=1000),
]
