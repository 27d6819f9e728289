"""P07: minibatches carry exact n-step returns, discounts and terminal flags."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt.core import Sub, require, require_close, require_eq, rng, to_np
from pbt.gens import pick, flag, rewards, seeds, sized_list, spread

from pfrl.replay_buffer import batch_experiences, batch_recurrent_experiences
from pfrl.replay_buffers import (EpisodicReplayBuffer, PrioritizedReplayBuffer, ReplayBuffer)
from pfrl.utils.batch_states import batch_states

RULE = """Cases are lists of experiences (windows of 1-6 transitions) or episodes with
generated rewards, discount, terminal position, state structure (array, tuple of arrays,
scalar), action type and preprocessing. Non-trivial: windows or episodes of at least two
different lengths, or a multi-step window, with a nonzero reward after the first."""
ASSUMPTIONS = ["returns are compared at float32 precision (1e-5 relative)"]

CPU = torch.device("cpu")


def phi_fn(name):
    if name == "id":
        return lambda x: x
    if name == "scale":
        return lambda x: (tuple(np.asarray(y, dtype=np.float32) * 2 for y in x)
                          if isinstance(x, tuple) else np.asarray(x, dtype=np.float32) * 2)
    if name == "pair":
        return lambda x: ((x[0], x[0]) if isinstance(x, tuple) else (x, x))
    if name == "list":
        return lambda x: [np.asarray(y, dtype=np.float32) for y in (x if isinstance(x, tuple) else (x, x * 2))]
    raise ValueError(name)


def make_state(kind, r):
    if kind == "vec":
        return r.randn(3).astype(np.float32)
    if kind == "img":
        return r.randint(0, 255, size=(2, 2), dtype=np.uint8)
    if kind == "tuple":
        return (r.randn(2).astype(np.float32), r.randn(1, 2).astype(np.float32))
    return np.float32(r.randn())


def make_action(kind, r):
    if kind == "int":
        return int(r.randint(5))
    if kind == "npint":
        return np.int64(r.randint(5))
    return r.randn(2).astype(np.float32)


def stacked(xs, phi):
    """Reference batching: phi on each, then stacking component-wise."""
    fs = [phi(x) for x in xs]
    if isinstance(fs[0], (tuple, list)):
        return tuple(np.stack([np.asarray(f[i]) for f in fs]) for i in range(len(fs[0])))
    return np.stack([np.asarray(f) for f in fs])


def same_batch(got, want, what):
    if isinstance(want, tuple):
        require(isinstance(got, (tuple, list)) and len(got) == len(want),
                "%s: structure %r", what, type(got))
        for i, (g, w) in enumerate(zip(got, want)):
            same_batch(g, w, "%s[%d]" % (what, i))
        return
    require(isinstance(got, torch.Tensor), "%s is not a tensor", what)
    require_close(got, want, what, rtol=0, atol=0)


def build(case):
    r = rng(case["seed"])
    exps = []
    for w in case["windows"]:
        exp = []
        n = len(w["rewards"])
        states = [make_state(case["state"], r) for _ in range(n + 1)]
        for i, rew in enumerate(w["rewards"]):
            exp.append(dict(
                state=states[i], action=make_action(case["action"], r), reward=rew,
                next_state=states[i + 1],
                next_action=(make_action(case["action"], r)
                             if case["next_action"] == "all"
                             or (case["next_action"] == "some" and i % 2) else None),
                is_state_terminal=bool(w["term"] and i == n - 1),
            ))
        exps.append(exp)
    return exps


def run_transitions(case):
    exps = build(case)
    phi = phi_fn(case["phi"])
    gamma = case["gamma"]
    calls = []

    def custom(states, device, f):
        calls.append(len(states))
        return batch_states(states, device, f)

    if case["custom"]:
        b = batch_experiences(exps, CPU, phi, gamma, batch_states=custom)
        require_eq(calls, [len(exps)] * 2, "calls of the given batching function")
    else:
        b = batch_experiences(exps, CPU, phi, gamma)
    same_batch(b["state"], stacked([e[0]["state"] for e in exps], phi), "state")
    same_batch(b["next_state"], stacked([e[-1]["next_state"] for e in exps], phi), "next_state")
    require_close(b["action"], np.stack([np.asarray(e[0]["action"]) for e in exps]), "action",
                  rtol=0, atol=0)
    ret, disc, term = [], [], []
    for e in exps:
        g, acc = 1.0, 0.0
        for t in e:
            acc += g * float(t["reward"])
            g *= gamma
        ret.append(acc)
        disc.append(g)
        term.append(1.0 if e[-1]["is_state_terminal"] else 0.0)
    require_close(b["reward"], ret, "n-step return", rtol=1e-5, atol=1e-5)
    require_close(b["discount"], disc, "discount", rtol=1e-5, atol=1e-7)
    require_close(b["is_state_terminal"], term, "terminal flag", rtol=0, atol=0)
    for k in ("reward", "discount", "is_state_terminal"):
        require_eq(b[k].dtype, torch.float32, "dtype of " + k)
    if all(e[-1]["next_action"] is not None for e in exps):
        require("next_action" in b, "next_action missing")
        require_close(b["next_action"],
                      np.stack([np.asarray(e[-1]["next_action"]) for e in exps]),
                      "next_action", rtol=0, atol=0)
    else:
        require("next_action" not in b, "next_action made up")
    lens = {len(e) for e in exps}
    nt = any(len(e) > 1 and any(t["reward"] for t in e[1:]) for e in exps)
    return (["nontrivial"] if nt else []) + (["mixed"] if len(lens) > 1 else [])


window = st.fixed_dictionaries(dict(
    rewards=st.one_of(st.lists(rewards, min_size=1, max_size=6), sized_list(rewards, 6, 16)), term=flag))
gammas = st.one_of(pick([0.0, 0.5, 0.9, 0.99, 1.0]),
                   spread(0, 1000).map(lambda x: x / 1000))


def trans_strategy():
    return st.fixed_dictionaries(dict(
        windows=st.lists(window, min_size=1, max_size=6), gamma=gammas, seed=seeds,
        state=pick(["vec", "img", "tuple", "scalar"]),
        action=pick(["int", "npint", "vec"]),
        next_action=pick(["all", "some", "none"]),
        phi=pick(["id", "scale", "pair", "list"]), custom=flag))


def run_episodes(case):
    exps = build(dict(case, windows=sorted(case["windows"], key=lambda w: -len(w["rewards"]))))
    r = rng(case["seed"] + 1)
    kind = case["rs"]

    def rs(maybe_none):
        if kind == "none" or (maybe_none and r.rand() < 0.4):
            return None
        a = r.randn(2, 3).astype(np.float32)
        return a if kind == "tensor" else (a, r.randn(2, 3).astype(np.float32))

    for e in exps:
        for t in e:
            t["recurrent_state"] = rs(True)
            t["next_recurrent_state"] = rs(False)
    phi = phi_fn(case["phi"])
    b = batch_recurrent_experiences(exps, CPU, phi, case["gamma"])
    require_eq(len(b["state"]), len(exps), "number of state sequences")
    for i, e in enumerate(exps):
        same_batch(b["state"][i], stacked([t["state"] for t in e], phi), "state sequence")
        same_batch(b["next_state"][i], stacked([t["next_state"] for t in e], phi),
                   "next state sequence")
    flat = [e[s] for s in range(max(map(len, exps))) for e in exps if s < len(e)]
    require_close(b["action"], np.stack([np.asarray(t["action"]) for t in flat]), "action",
                  rtol=0, atol=0)
    require_close(b["reward"], [float(t["reward"]) for t in flat], "reward", rtol=1e-6, atol=1e-6)
    require_close(b["is_state_terminal"], [float(t["is_state_terminal"]) for t in flat],
                  "terminal flag", rtol=0, atol=0)
    require_close(b["discount"], [case["gamma"]] * len(flat), "discount", rtol=1e-6, atol=1e-7)
    if all(t["next_action"] is not None for t in flat):
        require_close(b["next_action"], np.stack([np.asarray(t["next_action"]) for t in flat]),
                      "next_action", rtol=0, atol=0)
    else:
        require("next_action" not in b, "next_action made up")
    for key in ("recurrent_state", "next_recurrent_state"):
        firsts = [e[0][key] for e in exps]
        got = b[key]
        if all(f is None for f in firsts):
            require(got is None, "%s should be None", key)
            continue
        nparts = 1 if kind == "tensor" else 2
        for p in range(nparts):
            g = to_np(got if kind == "tensor" else got[p])
            for i, f in enumerate(firsts):
                w = np.zeros((2, 3)) if f is None else (f if kind == "tensor" else f[p])
                require_close(g[:, i], w, "%s of episode %d" % (key, i), rtol=0, atol=0)
    nt = len(exps) > 1 and len({len(e) for e in exps}) > 1
    return ["nontrivial"] if nt else []


def eps_strategy():
    return st.fixed_dictionaries(dict(
        windows=st.lists(window, min_size=1, max_size=5), gamma=gammas, seed=seeds,
        state=pick(["vec", "tuple"]), action=pick(["int", "vec"]),
        next_action=pick(["all", "some", "none"]),
        phi=pick(["id", "scale", "pair", "list"]),
        rs=pick(["none", "tensor", "tuple"])))


def run_end_to_end(case):
    """From an episode's history through the buffer into the batch."""
    n, gamma = case["n"], case["gamma"]
    buf = (ReplayBuffer(None, num_steps=n) if case["buf"] == "plain"
           else PrioritizedReplayBuffer(None, num_steps=n))
    eps = case["windows"]
    truth = {}
    uid = 0
    for e in eps:
        L = len(e["rewards"])
        for i, rew in enumerate(e["rewards"]):
            seg = e["rewards"][i:i + n]
            m = len(seg)
            truth[uid + i] = (sum(gamma ** j * x for j, x in enumerate(seg)), uid + i + m,
                              bool(e["term"] and i + m == L), gamma ** m)
        for i, rew in enumerate(e["rewards"]):
            buf.append(state=np.float32(uid + i), action=i % 3, reward=rew,
                       next_state=np.float32(uid + i + 1),
                       is_state_terminal=bool(e["term"] and i == L - 1))
        buf.stop_current_episode()
        uid += L + 1
    require_eq(len(buf), len(truth), "number of windows")
    b = batch_experiences(buf.sample(len(buf)), CPU, lambda x: x, gamma)
    seen = set()
    for i in range(len(truth)):
        s = int(b["state"][i])
        seen.add(s)
        ret, nxt, term, disc = truth[s]
        require_close(b["reward"][i], ret, "return of step %d" % s, rtol=1e-5, atol=1e-5)
        require_eq(int(b["next_state"][i]), nxt, "state after the window")
        require_eq(bool(b["is_state_terminal"][i]), term, "terminal flag")
        require_close(b["discount"][i], disc, "discount", rtol=1e-5, atol=1e-7)
    require_eq(len(seen), len(truth), "distinct windows")
    return ["nontrivial"] if n > 1 and any(len(e["rewards"]) > n for e in eps) else []


def e2e_strategy():
    return st.fixed_dictionaries(dict(
        windows=st.lists(st.fixed_dictionaries(dict(
            rewards=st.one_of(st.lists(rewards, min_size=1, max_size=9), sized_list(rewards, 8, 22)), term=flag)),
            min_size=1, max_size=4),
        gamma=gammas, n=st.one_of(st.integers(1, 5), spread(5, 16)), buf=pick(["plain", "prioritized"])))


QUICK_SCALE = 2

SUBS = [
    Sub("transitions", trans_strategy, run_transitions, quick=3000, thorough=100000, shards=3),
    Sub("episodes", eps_strategy, run_episodes, quick=3000, thorough=100000, shards=3),
    Sub("end_to_end", e2e_strategy, run_end_to_end, quick=2000, thorough=60000, shards=2),
]
