"""P09: value-based agents regress to their algorithm's target."""
import copy
import math

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import agents as A
from pbt.core import Sub, require, require_close, require_eq, rng, seed_all
from pbt.gens import pick, flag, rewards, seeds, spread

from pfrl import replay_buffers

RULE = """A case is an agent class, random online and target networks, and a batch of experiences
(1- to 4-step windows, terminal or not; for recurrent models whole sequences with stored recurrent
states), with discount, loss options, gradient clipping and importance weights. Non-trivial: at
least two samples, one of them not terminal, and a parameter change well above the tolerance."""
ASSUMPTIONS = ["parameter changes of one SGD step compared at 5e-4 of the largest change",
               "reference gradients come from torch autograd on an independently written loss"]

NAMES = ["DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "DPPL", "DPPGreedy"]


# ------------------------------------------------------------------ reference targets
def lop(name, q, eta):
    if name == "DPPGreedy":
        return max(q)
    m = max(q)
    if name == "DPPL":
        return m + math.log(sum(math.exp(eta * (x - m)) for x in q)) / eta
    w = [math.exp(eta * (x - m)) for x in q]
    return sum(a * b for a, b in zip(w, q)) / sum(w)


def target_value(name, case, ret, disc, term, a, tq, tqn, qn):
    """tq, tqn: target network's values at the state / next state; qn: online at next."""
    live = 0.0 if term else 1.0
    if name == "DQN":
        return ret + disc * live * max(tqn)
    if name in ("DoubleDQN", "DoublePAL"):
        boot = tqn[int(np.argmax(qn))]
    else:
        boot = max(tqn)
    y = ret + disc * live * boot
    if name == "DoubleDQN":
        return y
    if name == "AL":
        return y + case["alpha"] * (tq[a] - max(tq))
    if name in ("PAL", "DoublePAL"):
        return y + case["alpha"] * max(tq[a] - max(tq), tqn[a] - max(tqn))
    eta = case["eta"]
    return tq[a] + ret + disc * live * lop(name, tqn, eta) - lop(name, tq, eta)


def near_tie(q, tol=1e-4):
    """The greedy action is too close to call for rounding to be irrelevant."""
    v = sorted(float(x) for x in q)
    return len(v) > 1 and v[-1] - v[-2] < tol * max(1.0, abs(v[-1]))


def huber(d):
    return torch.where(d.abs() < 1, 0.5 * d * d, d.abs() - 0.5)


def sgd_reference(model, loss, lr, max_norm):
    """Expected parameters after one (clipped) SGD step on loss."""
    ps = list(model.parameters())
    gs = torch.autograd.grad(loss, ps, allow_unused=True)
    gs = [torch.zeros_like(p) if g is None else g for p, g in zip(ps, gs)]
    norm = math.sqrt(sum(float((g.double() ** 2).sum()) for g in gs))
    coef = 1.0
    if max_norm is not None and norm > max_norm:
        coef = max_norm / norm
    return [(-lr * coef * g).detach() for g in gs], norm * coef * lr


def compare_step(before, after, deltas, what, rtol=5e-4):
    size = max([float(d.abs().max()) for d in deltas] + [0.0])
    for (k, b), a, d in zip(before.items(), after, deltas):
        got = (a.detach() - b).double().numpy()
        require_close(got, d.double().numpy(), "%s: change of %s" % (what, k),
                      rtol=rtol, atol=2e-6 + 2.4e-7 * float(b.abs().max()), scale=max(size, 1e-3))
    return size


def named_before(model):
    return {k: p.detach().clone() for k, p in model.named_parameters()}


# ------------------------------------------------------------------ batches
def make_windows(case, r, n_act, act_dtype=np.int64):
    exps = []
    for w in case["windows"] * case["times"]:
        n = len(w["rewards"])
        states = [r.randn(3).astype(np.float32) for _ in range(n + 1)]
        exps.append([dict(state=states[i], action=act_dtype(r.randint(n_act)), reward=rew * case["rscale"],
                          next_state=states[i + 1], next_action=None,
                          is_state_terminal=bool(w["term"] and i == n - 1))
                     for i, rew in enumerate(w["rewards"])])
    return exps


def window_facts(exp, gamma):
    ret, g = 0.0, 1.0
    for t in exp:
        ret += g * float(t["reward"])
        g *= gamma
    return ret, g, exp[-1]["is_state_terminal"]


def agent_kwargs(case):
    kw = {}
    name = case["agent"]
    if name in ("AL", "PAL", "DoublePAL"):
        kw["alpha"] = case["alpha"]
    if name in ("DPP", "DPPL"):
        kw["eta"] = case["eta"]
    return kw


def accumulate(losses, weights, acc):
    if weights is not None:
        losses = losses * torch.tensor(weights, dtype=losses.dtype)
    return losses.sum() if acc == "sum" else losses.sum() / len(losses)


def run_update(case):
    r = rng(case["seed"])
    seed_all(case["seed"])
    n_act = case["n_act"]
    model = A.randomize(A.QNet(n=n_act), case["seed"], case["scale"])
    lr = 0.5
    weights = None
    exps = make_windows(case, r, n_act, np.int32 if case["int32"] else np.int64)
    if case["weighted"]:
        weights = [float(x) for x in r.uniform(0.05, 1.0, size=len(exps))]
        for e, w in zip(exps, weights):
            e[0]["weight"] = w
    buf = A.PrioRecorder() if case["weighted"] else replay_buffers.ReplayBuffer(10)
    phi = (lambda x: x * np.float32(0.5)) if case["phi"] else (lambda x: x)
    ag = A.agent_class(case["agent"])(
        model, A.sgd(model, lr), buf, case["gamma"], A.greedy_explorer(), replay_start_size=5,
        minibatch_size=5, clip_delta=case["clip_delta"], batch_accumulator=case["acc"],
        max_grad_norm=case["max_norm"], phi=phi, **agent_kwargs(case))
    A.randomize(ag.target_model, case["seed"] + 1, case["scale"])
    ref, tgt = copy.deepcopy(model), copy.deepcopy(ag.target_model)
    before, tbefore = named_before(model), named_before(ag.target_model)

    ys, ts = [], []
    for e in exps:
        ret, disc, term = window_facts(e, case["gamma"])
        s = torch.tensor(phi(e[0]["state"]))[None]
        sn = torch.tensor(phi(e[-1]["next_state"]))[None]
        a = int(e[0]["action"])
        ys.append(ref.q(s)[0, a])
        with torch.no_grad():
            if "Double" in case["agent"] and near_tie(ref.q(sn)[0]):
                return ["near-tie"]
            ts.append(target_value(case["agent"], case, ret, disc, term, a,
                                   tgt.q(s)[0].tolist(), tgt.q(sn)[0].tolist(),
                                   ref.q(sn)[0].tolist()))
    d = torch.stack(ys) - torch.tensor(ts, dtype=torch.float32)
    per = huber(d) if case["clip_delta"] else 0.5 * d * d
    loss = accumulate(per, weights, case["acc"])
    deltas, _ = sgd_reference(ref, loss, lr, case["max_norm"])

    errors = [] if case["errors"] else None
    if errors is None:
        ag.update(exps)
    else:
        ag.update(exps, errors)
    size = compare_step(before, list(model.parameters()), deltas, case["agent"])
    for k, p in ag.target_model.named_parameters():
        require(torch.equal(p.detach(), tbefore[k]), "update changed the target network")
    want_err = d.detach().abs().numpy()
    if case["weighted"]:
        require_eq(len(buf.errors), 1, "number of priority updates")
        require_close(np.array(buf.errors[0]), want_err, "errors fed back", rtol=5e-4, atol=1e-5)
    if errors is not None:
        require_close(np.array([float(np.asarray(e)) for e in errors]), want_err, "errors",
                      rtol=5e-4, atol=1e-5)
    nt = len(exps) >= 2 and size > 1e-2 and any(not e[-1]["is_state_terminal"] for e in exps)
    return (["nontrivial"] if nt else []) + [case["agent"]]


window = st.fixed_dictionaries(dict(
    rewards=st.lists(rewards, min_size=1, max_size=4), term=pick([False, False, True])))
gammas = st.one_of(pick([0.5, 0.9, 0.99, 1.0]), spread(0, 100).map(lambda x: x / 100))


def common():
    return dict(
        windows=st.lists(window, min_size=1, max_size=7), gamma=gammas, seed=seeds,
        n_act=spread(2, 4), scale=pick([0.3, 0.7, 1.5]),
        rscale=pick([1.0] * 5 + [30.0, 1000.0]), times=pick([1] * 20 + [4, 15]), acc=pick(
            ["mean", "sum"]), weighted=flag, errors=flag, phi=flag,
        max_norm=pick([None, None, 0.1, 1.0]), int32=flag)


def strategy():
    return st.fixed_dictionaries(dict(
        common(), scale=pick([0.3, 0.7, 1.5, 0.7, 6.0]), agent=pick(NAMES), clip_delta=flag,
        alpha=pick([0.9, 0.5, 0.0, 0.25]), eta=pick([1.0, 0.5, 2.0, 5.0])))


# ------------------------------------------------------------------ recurrent updates
def seq_out(model, rnn_i, xs, rs):
    """Outputs of the layers after the RNN, one step at a time, starting from rs."""
    outs = []
    if rs is not None:
        (rs,) = rs
        rs = (tuple(torch.tensor(x)[:, None] for x in rs) if isinstance(rs, tuple)
              else torch.tensor(rs)[:, None])
    mods = list(model.children())
    for x in xs:
        h = torch.tensor(x)[None]
        for m in mods[:rnn_i]:
            h = m(h)
        h, rs = mods[rnn_i](h[None], rs)
        outs.append((h[0], rs))
    return outs


def make_episodes(case, r, n_act, hidden, rnn):
    def rs(none_ok):
        if none_ok and r.rand() < 0.4:
            return None
        one = lambda: r.randn(1, hidden).astype(np.float32) * 0.5  # noqa: E731
        # a container's state is a tuple of its recurrent children's states
        return ((one(), one()) if rnn == "lstm" else one(),)

    eps = []
    for w in case["windows"] * case["times"]:
        n = len(w["rewards"])
        states = [r.randn(3).astype(np.float32) for _ in range(n + 1)]
        eps.append([dict(state=states[i], action=int(r.randint(n_act)), reward=rew * case["rscale"],
                         next_state=states[i + 1], next_action=None,
                         is_state_terminal=bool(w["term"] and i == n - 1),
                         recurrent_state=rs(True), next_recurrent_state=rs(False))
                    for i, rew in enumerate(w["rewards"])])
    return eps


def run_recurrent(case):
    r = rng(case["seed"])
    n_act, hidden = case["n_act"], 3
    model = A.randomize(A.rnn_qnet(n=n_act, hidden=hidden, kind=case["rnn"]), case["seed"],
                        case["scale"])
    eps = make_episodes(case, r, n_act, hidden, case["rnn"])
    lr = 0.5
    ag = A.agent_class(case["agent"])(
        model, A.sgd(model, lr), replay_buffers.EpisodicReplayBuffer(10), case["gamma"],
        A.greedy_explorer(), replay_start_size=5, minibatch_size=5, recurrent=True,
        clip_delta=case["clip_delta"], batch_accumulator=case["acc"],
        max_grad_norm=case["max_norm"], **agent_kwargs(case))
    A.randomize(ag.target_model, case["seed"] + 1, case["scale"])
    ref, tgt = copy.deepcopy(model), copy.deepcopy(ag.target_model)
    before = named_before(model)

    def qs(m, xs, rs):
        head = m[3]
        return [head(o)[0] for o, _ in seq_out(m, 2, xs, rs)]

    ys, ts = [], []
    for e in eps:
        q = qs(ref, [t["state"] for t in e], e[0]["recurrent_state"])
        with torch.no_grad():
            tq = qs(tgt, [t["state"] for t in e], e[0]["recurrent_state"])
            tqn = qs(tgt, [t["next_state"] for t in e], e[0]["next_recurrent_state"])
            qn = qs(ref, [t["next_state"] for t in e], e[0]["next_recurrent_state"])
        if "Double" in case["agent"] and any(near_tie(q) for q in qn):
            return ["near-tie"]
        for i, t in enumerate(e):
            ys.append(q[i][t["action"]])
            ts.append(target_value(case["agent"], case, float(t["reward"]), case["gamma"],
                                   t["is_state_terminal"], t["action"], tq[i].tolist(),
                                   tqn[i].tolist(), qn[i].tolist()))
    d = torch.stack(ys) - torch.tensor(ts, dtype=torch.float32)
    per = huber(d) if case["clip_delta"] else 0.5 * d * d
    loss = accumulate(per, None, case["acc"])
    deltas, _ = sgd_reference(ref, loss, lr, case["max_norm"])
    ag.update_from_episodes(eps)
    size = compare_step(before, list(model.parameters()), deltas,
                        "recurrent " + case["agent"])
    nt = len(eps) >= 2 and len({len(e) for e in eps}) > 1 and size > 1e-2
    return (["nontrivial"] if nt else []) + [case["agent"]]


def rec_strategy():
    return st.fixed_dictionaries(dict(
        common(), agent=pick(NAMES), clip_delta=flag,
        rnn=pick(["lstm", "gru", "rnn"]),
        alpha=pick([0.9, 0.5]), eta=pick([1.0, 0.5, 2.0])))


QUICK_SCALE = 3

SUBS = [
    Sub("update", strategy, run_update, quick=1500, shards=5),
    Sub("recurrent", rec_strategy, run_recurrent, quick=400, shards=3),
]
