"""P16: agents record exactly the transitions they lived through."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import agents as A
from pbt import zoo
from pbt.core import Sub, require, require_eq, rng, seed_all
from pbt.gens import ends, flag, pick, seeds, sized_list, spread

warnings.filterwarnings("ignore", category=UserWarning)

RULE = """A case is an agent kind with random settings and a history of act/observe rounds over 1-3
environments with terminations and resets, with evaluation rounds in between. 'replay' compares the
replay buffer's contents with the windows of the harness's own log; 'single' runs the same history
through the single and the batched interface; 'eval' runs it with and without evaluation rounds
(random state restored), which has to give bit-equal actions, parameters, optimizer state and buffer
contents. Non-trivial: at least three rounds with an episode end ('eval': and an evaluation
round)."""
ASSUMPTIONS = ["bit-equality is between two runs in the same process on the same machine"]


def same(a, b):
    if (a is None) != (b is None):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is None or np.array_equal(np.asarray(a), np.asarray(b))


def eval_round(ag, n, r, single):
    with ag.eval_mode():
        for _ in range(r.randint(1, 4)):
            o = [r.randn(3).astype(np.float32) for _ in range(n)]
            nx = [r.randn(3).astype(np.float32) for _ in range(n)]
            ends = [bool(r.randint(3) == 0) for _ in range(n)]
            res = [bool(r.randint(3) == 0) for _ in range(n)]
            if single:
                ag.act(o[0])
                ag.observe(nx[0], 1.0, ends[0], res[0])
            else:
                ag.batch_act(o)
                ag.batch_observe(nx, [1.0] * n, ends, res)


def has_end(rows, n):
    return any(ends(row, i) for row in rows for i in range(n))


# ------------------------------------------------------------------ contents of the buffer
def run_replay(case):
    name = case["agent"]
    cfg = zoo.fix(name, dict(case["cfg"], capacity=None, prio=False))
    seed_all(case["seed"])
    rec = name in zoo.RECURRENT_Q or "ACER" in name
    ag = zoo.make(name, cfg, learn=case["learn"])
    N = cfg["n_env"]
    single = name in zoo.SINGLE or (N == 1 and case["single"])
    steps = cfg["n"]
    done_eps, cur = [], [[] for _ in range(N)]
    for k, s in enumerate(zoo.world(case["seed"], N, case["rows"])):
        if case["rows"][k] & 64:
            eval_round(ag, N, rng(case["seed"] + k), single)
        obs, rew, nxt, done, reset = s
        if single:
            acts = [ag.act(obs[0])]
        else:
            acts = list(ag.batch_act(obs))
        acts = [np.array(a) for a in acts]
        if case["rows"][k] & 128:
            eval_round(ag, N, rng(case["seed"] + 10 ** 6 + k), single)
        if single:
            ag.observe(nxt[0], rew[0], done[0], reset[0])
        else:
            ag.batch_observe(nxt, rew, done, reset)
        for i in range(N):
            cur[i].append(dict(state=obs[i], action=acts[i], reward=rew[i], next_state=nxt[i],
                               is_state_terminal=done[i]))
            if done[i] or reset[i]:
                done_eps.append(cur[i])
                cur[i] = []
    # expected contents
    if rec:
        want = done_eps
        nb = ag.replay_buffer.n_episodes
        got = ag.replay_buffer.sample_episodes(nb) if nb else []
        require_eq(len(ag.replay_buffer), sum(map(len, want)), "%s: buffered transitions" % name)
    else:
        want = [e[j:j + steps] for e in done_eps for j in range(len(e))]
        want += [e[j:j + steps] for e in cur for j in range(len(e)) if j + steps <= len(e)]
        nb = len(ag.replay_buffer)
        got = ag.replay_buffer.sample(nb) if nb else []
    require_eq(len(got), len(want), "%s: number of stored %s" % (
        name, "episodes" if rec else "windows"))
    by = {}
    for w in want:
        by.setdefault((A.key(w[0]["state"]), len(w)), []).append(w)
    for g in got:
        c = by.get((A.key(g[0]["state"]), len(g)))
        require(c, "%s: stored sequence of %d transitions from %s was not lived through", name,
                len(g), g[0]["state"])
        w = c.pop()
        for a, b in zip(g, w):
            for f in b:
                require(same(a[f], b[f]), "%s: stored %s is %s, lived %s", name, f, a[f], b[f])
            require(bool(a["is_state_terminal"]) == b["is_state_terminal"],
                    "%s: stored terminal flag differs", name)
    out = ["nontrivial"] if len(case["rows"]) >= 3 and has_end(case["rows"], N) else []
    return out + [name] + (["batched"] if not single else [])


# ------------------------------------------------------------------ batch of one
def same_state(name, a, b, what):
    d = zoo.diff(zoo.tensors(a), zoo.tensors(b))
    require(d is None, "%s: %s differs %s", name, d, what)
    if getattr(a, "replay_buffer", None) is not None:
        x, y = zoo.windows(a.replay_buffer), zoo.windows(b.replay_buffer)
        require_eq(len(x), len(y), "%s: buffer size %s" % (name, what))
        for u, v in zip(x, y):
            require(len(u) == len(v) and all(
                same(p[f], q[f]) for p, q in zip(u, v)
                for f in ("state", "action", "reward", "next_state", "is_state_terminal")),
                "%s: buffer contents differ %s" % (name, what))
    require_eq(a.get_statistics(), b.get_statistics(), "%s: statistics %s" % (name, what)) \
        if not _nan(a.get_statistics()) else None


def _nan(stats):
    return any(isinstance(v, float) and np.isnan(v) for _, v in stats)


def run_single(case):
    name = case["agent"]
    cfg = zoo.fix(name, dict(case["cfg"], n_env=1))
    outs, ags = [], []
    for single in (True, False):
        seed_all(case["seed"])
        ag = zoo.make(name, cfg)
        seed_all(case["seed"] + 1)
        acts = []
        for k, s in enumerate(zoo.world(case["seed"], 1, case["rows"])):
            acts += zoo.step(ag, s, single)
            if case["rows"][k] & 64:
                eval_round(ag, 1, rng(case["seed"] + k), single)
        outs.append(acts)
        ags.append(ag)
    for k, (a, b) in enumerate(zip(*outs)):
        require(np.array_equal(a, b), "%s: action %d is %s through the single-environment "
                "interface and %s in a batch of one", name, k, a, b)
    same_state(name, ags[0], ags[1], "between the single interface and a batch of one")
    return [name] + (["nontrivial"] if len(case["rows"]) >= 3 and has_end(case["rows"], 1) else [])


# ------------------------------------------------------------------ evaluation leaves no trace
def run_eval(case):
    name = case["agent"]
    cfg = zoo.fix(name, case["cfg"])
    N = cfg["n_env"]
    single = name in zoo.SINGLE or (N == 1 and case["single"])
    outs, ags, ev = [], [], False
    for with_eval in (False, True):
        seed_all(case["seed"])
        ag = zoo.make(name, cfg)
        seed_all(case["seed"] + 1)
        acts = []
        for k, s in enumerate(zoo.world(case["seed"], N, case["rows"])):
            if with_eval and case["rows"][k] & 64:
                st_ = zoo.freeze()
                eval_round(ag, N, rng(case["seed"] + k), single)
                zoo.thaw(st_)
                require(ag.training, "%s: not in training mode after evaluation", name)
                ev = True
            acts += zoo.step(ag, s, single)
        outs.append(acts)
        ags.append(ag)
    for k, (a, b) in enumerate(zip(*outs)):
        require(np.array_equal(a, b), "%s: training action %d is %s without evaluation rounds and "
                "%s with them", name, k, a, b)
    same_state(name, ags[0], ags[1], "between runs with and without evaluation")
    out = [name]
    if ev and len(case["rows"]) >= 3 and has_end(case["rows"], N):
        out.append("nontrivial")
    return out


def strategy():
    row = st.one_of(st.just(0), st.just(0), spread(0, 255), pick([64, 128, 1, 2, 65, 66, 68]))
    return st.fixed_dictionaries(dict(
        cfg=zoo.config(), seed=seeds, single=flag,
        learn=flag, rows=sized_list(row, 4, 20)))


SUBS = [
    Sub("replay", strategy, run_replay, quick=400, shards=4,
        axis=("agent", zoo.REPLAY + ["ACER", "RACER", "ACERc"])),
    Sub("single", strategy, run_single, quick=200, shards=3, axis=("agent", zoo.BATCH)),
    Sub("eval", strategy, run_eval, quick=300, shards=4, axis=("agent", zoo.ALL)),
]
