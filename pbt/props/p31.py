"""P31: hooks and the built-in environment behave as documented inside of training."""
import importlib.util
import logging
import os
import sys
import types
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from pbt.core import REPO, Sub, require, require_close, require_eq, require_freq, rng, scratch
from pbt.gens import flag, pick, seeds, sized_list, spread, tup
from pbt.script import ENDS, RecAgent, ScriptEnv, ScriptVec

from pfrl import experiments
from pfrl.envs.abc import ABC
from pfrl.experiments.evaluation_hooks import EvaluationHook

logging.getLogger("pfrl").setLevel(logging.CRITICAL)

RULE = """'toy': a size, four settings and a history of resets and actions (right, wrong, continuous vectors inside and
outside of the bounds) for pfrl.envs.ABC, against a model; sampled inner actions of continuous settings are judged by frequency.
'interpolation': a LinearInterpolationHook (values rising, falling, huge, equal) in a training loop over scripted environments, single or batched,
from a step offset on. 'support': evaluation hooks with every combination of the support flags in the three training
functions. 'pruning': OptunaPrunerHook with a stand-in for optuna's trial over scripted evaluations. Non-trivial: toy: two or more episodes
with a goal reached; interpolation: the step passes total_steps; support: some hook is refused; pruning: pruned after two or more reports."""
ASSUMPTIONS = ["a LinearInterpolationHook has total_steps of 2 or more"]


# ---- toy environment

def run_toy(c):
    np.random.seed(c["seed"] % 2**32)
    r = rng(c["seed"])
    n, disc, po, epi, det = c["size"], c["discrete"], c["po"], c["episodic"], c["det"]
    env = ABC(size=n, discrete=disc, partially_observable=po, episodic=epi, deterministic=det)
    require_eq(env.observation_space.shape, (n + 2,), "shape of the observation space")
    require_eq(getattr(env.action_space, "n", None) if disc else env.action_space.shape, n if disc else (n,),
               "size of the action space")
    state, over, shift, episodes, goals = None, True, None, 0, 0
    seen = set()

    def look(obs, what):
        require(obs.dtype == np.float32 and env.observation_space.contains(obs), "%s: %s is not in the observation space", what, obs)
        require(sorted(obs.tolist()) == [0.0] * (n + 1) + [1.0], "%s: %s is not one-hot", what, obs)
        return int(np.argmax(obs))

    def reset():
        nonlocal state, over, shift, episodes
        episodes += 1
        k = look(env.reset(), "reset")
        require(k == 0 or po and k == 1, "an episode starts with state %d", k)
        if po and det:
            require_eq(k, episodes % 2, "shift of episode %d" % episodes)
        state, over, shift = 0, False, k
        seen.add(k)

    for kind, x in c["ops"]:
        if over or kind == "reset":
            reset()
            continue
        right = kind == "right"
        if disc:
            a = state if right else (state + 1 + x % (n - 1)) % n if n > 1 else 1
            inner = a
        else:
            # components outside of the bounds elsewhere too: clipped to the same value, the first of them counts
            a = r.randn(n) * [0.3, 3.0][x % 3 == 0]
            if right:
                a[:state] = np.minimum(a[:state], 0.9)
                a[state] = 1.0 + x % 4
            elif n > 1:
                a[state] = -1.0 - x % 4
            a = a.astype(np.float32)
            inner = int(np.argmax(np.clip(a, -1, 1)))
            a0 = a.copy()
        obs, rew, done, info = env.step(a)
        if not disc:
            require_eq(a, a0, "action given to step")
        k = look(obs, "step") - shift
        goal_state = n if epi else 0
        good = goal_state if state == n - 1 else state + 1
        bad = n if epi else state
        certain = disc or det
        hit = inner == state if certain else (rew == 1 or (k == good and (good != bad)))
        require_eq(k, good if hit else bad, "state after %s in state %d of %d" % ("the right action" if hit else "a wrong one", state, n))
        require_eq(float(rew), 1.0 if hit and state == n - 1 else 0.0, "reward in state %d of %d" % (state, n))
        require_eq(bool(done), epi and (not hit or state == n - 1), "done in state %d of %d" % (state, n))
        goals += bool(rew)
        state, over = k, bool(done)
    if not disc and not det and c["freq"]:
        # frequency of the right inner action in state 0
        a = np.asarray(r.randn(n) * [0.5, 2.0, 5.0][c["seed"] % 3], dtype=np.float32)
        p = np.exp(np.clip(a, -1, 1).astype(float))
        p = p / p.sum()
        trials, hits = 1500, 0
        for _ in range(trials):
            shift = int(np.argmax(env.reset()))
            obs, rew, done, _ = env.step(a)
            hits += bool(rew == 1 if n == 1 else int(np.argmax(obs)) - shift == 1)
        require_freq([hits], [p[0]], trials, "right inner actions for %s" % a)
    if po and not det and c["freq"]:
        for _ in range(60):
            reset()
    if po and not det and episodes >= 60:
        require_eq(seen, {0, 1}, "shifts seen in %d episodes" % episodes)
    return ["nontrivial"] if episodes >= 2 and goals else []


toy = st.fixed_dictionaries(dict(
    size=pick([1, 2, 2, 3, 5, 8]), discrete=flag, po=flag, episodic=flag, det=flag, seed=seeds, freq=flag,
    ops=sized_list(tup(pick(["right"] * 8 + ["wrong", "wrong", "reset"]), spread(0, 9)), 1, 60)))


# ---- interpolation

def make_env(c):
    envs = [ScriptEnv(i, [[n, ENDS[k]] for n, k in eps]) for i, eps in enumerate(c["scripts"])]
    return ScriptVec(envs) if c["batch"] else envs[0]


def run_interpolation(c):
    got, steps = [], []
    env, agent = make_env(c), RecAgent()

    def setter(e, a, v):
        require(e is env and a is agent, "the setter is called with %s, %s", e, a)
        got.append(float(v))

    def probe(e, a, t):
        steps.append(t)
    hook = experiments.LinearInterpolationHook(c["total"], c["start"], c["stop"], setter)
    with scratch() as d:
        f = experiments.train_agent_batch if c["batch"] else experiments.train_agent
        f(agent, env, steps=c["offset"] + c["steps"], outdir=d, step_offset=c["offset"], step_hooks=[hook, probe])
    n = len(c["scripts"]) if c["batch"] else 1
    rounds = -(-c["steps"] // n)
    require_eq(steps, list(range(c["offset"] + 1, c["offset"] + 1 + rounds * n)), "steps given to hooks")
    require_eq(len(got), len(steps), "calls of the setter")
    for t, v in zip(steps, got):
        w = min(1.0, max(0.0, (t - 1) / (c["total"] - 1)))
        require_close(v, c["start"] * (1 - w) + c["stop"] * w, "value at step %d of %d" % (t, c["total"]), rtol=1e-9, atol=1e-12,
                      scale=max(abs(c["start"]), abs(c["stop"])))
        require(t < c["total"] or v == c["stop"], "value at step %d is %r", t, v)
    return ["nontrivial"] if steps[-1] > c["total"] and steps[0] < c["total"] else []


EPS = sized_list(tup(spread(1, 6), spread(0, 2)), 1, 4)
values = pick([0.0, 1.0, 0.5, 1e-3, 1e-8, -2.0, 1e6])
interpolation = st.fixed_dictionaries(dict(
    scripts=sized_list(EPS, 1, 3), batch=flag, total=spread(2, 30), start=values, stop=values,
    steps=spread(1, 50), offset=pick([0, 0, 1, 7])))


# ---- support flags

class Flagged(EvaluationHook):
    def __init__(self, flags, seen):
        self.support_train_agent, self.support_train_agent_batch, self.support_train_agent_async = flags
        self.seen = seen

    def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
        self.seen.append(self)


def call(which, c, agent, env, hooks, d, **kw):
    opts = dict(steps=c.get("steps", 12), eval_n_steps=None, eval_n_episodes=c.get("n", 1), eval_interval=c.get("interval", 3), outdir=d,
                evaluation_hooks=hooks)
    opts.update(kw)
    if which == "single":
        return experiments.train_agent_with_evaluation(agent, env, **opts)
    if which == "batch":
        return experiments.train_agent_batch_with_evaluation(agent, env, **opts)
    opts.pop("outdir")
    return experiments.train_agent_async(outdir=d, processes=1, make_env=lambda i, test: env, agent=agent, **opts)


def run_support(c):
    which = c["which"]
    k = ["single", "batch", "async"].index(which)
    seen = []
    hooks = [Flagged(f, seen) for f in c["hooks"]]
    bad = any(not f[k] for f in c["hooks"])
    if which == "async" and not bad:
        return []       # P20 runs asynchronous training
    eps = [[2, "done"], [3, "reset"]]
    envs = [ScriptEnv(i, eps) for i in range(2)]
    for e in envs:
        e.lenient = True
    env = ScriptVec(envs) if which == "batch" else envs[0]
    agent = RecAgent()
    with scratch() as d:
        try:
            call(which, c, agent, env, hooks, d)
            refused = False
        except ValueError:
            refused = True
    require_eq(refused, bad, "hooks refused by %s training with flags %s" % (which, c["hooks"]))
    if refused:
        require(not agent.log and not any(e.log for e in envs), "training started in spite of a hook that was refused")
    else:
        n = len(seen) // max(1, len(hooks))
        require(not hooks or n >= 2, "hooks are not called")
        require(all(seen[i * len(hooks):(i + 1) * len(hooks)] == hooks for i in range(n)) and len(seen) == n * len(hooks),
                "hooks are not called in order after each evaluation")
    return ["nontrivial"] if bad else []


support = st.fixed_dictionaries(dict(which=pick(["single", "batch", "async"]), hooks=sized_list(tup(flag, flag, flag), 0, 3)))


# ---- pruning

def load_with(optuna):
    spec = importlib.util.spec_from_file_location("pfrl.experiments.pbt_evaluation_hooks", os.path.join(REPO, "pfrl/experiments/evaluation_hooks.py"))
    m = importlib.util.module_from_spec(spec)
    with mock.patch.dict(sys.modules, {"optuna": optuna}):
        spec.loader.exec_module(m)
    return m


class TrialPruned(Exception):
    pass


def run_pruning(c):
    optuna = types.ModuleType("optuna")
    optuna.TrialPruned = TrialPruned
    optuna.exceptions = types.SimpleNamespace(TrialPruned=TrialPruned)
    with mock.patch.dict(sys.modules, {"optuna": optuna}):
        return prune(c, load_with(optuna))


def prune(c, mod):
    reports, asked = [], []

    class Trial:
        def report(self, value, step):
            reports.append((step, float(value)))

        def should_prune(self):
            asked.append(len(reports))
            return c["prune"] is not None and len(reports) >= c["prune"]
    hook = mod.OptunaPrunerHook(Trial())
    require(not hook.support_train_agent_async, "OptunaPrunerHook claims to work with train_agent_async")
    seen = []

    class Spy(EvaluationHook):
        support_train_agent = support_train_agent_batch = True

        def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
            seen.append((step, float(eval_stats["mean"])))
    eps = [[n, ENDS[k]] for n, k in c["eps"]]
    envs = [ScriptEnv(i, eps, salt=c["salt"]) for i in range(4)]
    which = c["which"]
    env, eenv = (ScriptVec(envs[:2]), ScriptVec(envs[2:])) if which == "batch" else envs[:2]
    for e in envs:
        e.lenient = True
    agent = RecAgent()
    pruned = False
    with scratch() as d:
        try:
            call(which, c, agent, env, [Spy(), hook], d, eval_env=eenv)
        except TrialPruned:
            pruned = True
        with open(os.path.join(d, "scores.txt")) as f:
            rows = [ln.split("\t") for ln in f][1:]
    require_eq(reports, seen, "reports to the trial")
    require_eq([(int(r[0]), round(float(r[3]), 9)) for r in rows][:len(reports)], [(s, round(v, 9)) for s, v in reports],
               "score log and reports")
    require_eq(asked, list(range(1, len(reports) + 1)), "questions whether to prune")
    want = c["prune"] is not None and len(reports) >= c["prune"]
    require_eq(pruned, want, "pruning after %d reports" % len(reports))
    if pruned:
        require_eq(len(reports), c["prune"], "reports before the trial was pruned")
    return ["nontrivial"] if pruned and len(reports) >= 2 else []


pruning = st.fixed_dictionaries(dict(
    which=pick(["single", "batch"]), eps=EPS, salt=spread(0, 50), n=pick([1, 2, 3, 5, 8]), interval=spread(1, 6), steps=spread(4, 40),
    prune=pick([None, 1, 2, 3, 4])))

QUICK_SCALE = 5

SUBS = [
    Sub("toy", toy, run_toy, quick=700, shards=3),
    Sub("interpolation", interpolation, run_interpolation, quick=300, shards=2),
    Sub("support", support, run_support, quick=200),
    Sub("pruning", pruning, run_pruning, quick=200, shards=2),
]
