"""P10: distributional agents project and regress distributions correctly."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from pbt import agents as A
from pbt.core import Sub, require, require_close, require_eq, rng, seed_all
from pbt.gens import pick, flag, rewards, spread
from pbt.props.p09 import (accumulate, common, compare_step, huber, make_episodes, make_windows,
                           named_before, near_tie, seq_out, sgd_reference, window_facts)

from pfrl import action_value as av
from pfrl import agents, replay_buffers
from pfrl.nn import RecurrentSequential

RULE = """A case is a categorical or quantile agent, random online and target networks, support
(end points, number of atoms) or quantile counts, and a batch of windows or sequences with rewards
on, off and beyond the support. Non-trivial: at least two samples, one not terminal, with a
parameter change well above the tolerance (greedy acting: at least two actions)."""
ASSUMPTIONS = ["parameter changes of one SGD step compared at 5e-4 of the largest change",
               "quantile thresholds drawn by the agent are recorded at the network, not predicted"]


# ------------------------------------------------------------------ categorical
def project(z, ys, ps):
    """Projection of masses ps at values ys onto the evenly spaced support z."""
    n = len(z)
    out = np.zeros(n)
    dz = (z[-1] - z[0]) / (n - 1)
    for y, p in zip(ys, ps):
        y = min(max(y, z[0]), z[-1])
        # triangular kernel of every atom
        out += p * np.maximum(0.0, 1.0 - np.abs(y - np.asarray(z)) / dz)
    return out.tolist()


class AtomHead(nn.Module):
    def __init__(self, n, atoms, vmin, vmax):
        super().__init__()
        self.n, self.atoms = n, atoms
        self.register_buffer("z", torch.linspace(vmin, vmax, atoms))

    def dist(self, h):
        return torch.softmax(h.reshape(-1, self.n, self.atoms), dim=2)

    def forward(self, h):
        return av.DistributionalDiscreteActionValue(self.dist(h), self.z)


def support(case):
    vmin = case["vmin"]
    if case["atoms"] > 9:  # rounding of the atoms has to stay small relative to their distance
        vmin = min(max(vmin, -case["span"]), case["span"] / 4)
    return vmin, vmin + case["span"]


def fine(case):
    """Tolerance: where atoms are dense, single precision places mass less exactly."""
    return 5e-3 if case["atoms"] > 9 else 5e-4


def cat_target(double, ret, disc, term, z, tdist_n, odist_n):
    """tdist_n: (n_actions, atoms) of the target at the next state, odist_n: online."""
    q = [sum(a * b for a, b in zip(z, row)) for row in (odist_n if double else tdist_n)]
    if near_tie(q):
        return None
    a = int(np.argmax(q))
    live = 0.0 if term else 1.0
    return project(z, [ret + disc * live * v for v in z], tdist_n[a])


def cat_losses(dists, ts):
    return torch.stack([-(torch.tensor(t, dtype=torch.float32)
                          * torch.log(torch.clamp(d, 1e-10, 1.0))).sum()
                        for d, t in zip(dists, ts)])


def run_categorical(case):
    r = rng(case["seed"])
    seed_all(case["seed"])
    n_act, (vmin, vmax) = case["n_act"], support(case)
    model = A.randomize(A.DistQNet(n=n_act, atoms=case["atoms"], vmin=vmin, vmax=vmax),
                        case["seed"], case["scale"])
    exps = make_windows(case, r, n_act)
    if case["grid"]:  # rewards exactly on atoms
        z0 = np.linspace(vmin, vmax, case["atoms"])
        for e in exps:
            e[0]["reward"] = float(z0[r.randint(len(z0))])
    weights = None
    if case["weighted"]:
        weights = [float(x) for x in r.uniform(0.05, 1.0, size=len(exps))]
        for e, w in zip(exps, weights):
            e[0]["weight"] = w
    buf = A.PrioRecorder() if case["weighted"] else replay_buffers.ReplayBuffer(10)
    lr = 0.5
    double = case["agent"] == "CategoricalDoubleDQN"
    ag = A.agent_class(case["agent"])(
        model, A.sgd(model, lr), buf, case["gamma"], A.greedy_explorer(), replay_start_size=5,
        minibatch_size=5, batch_accumulator=case["acc"], max_grad_norm=case["max_norm"])
    A.randomize(ag.target_model, case["seed"] + 1, case["scale"])
    ref, tgt = copy.deepcopy(model), copy.deepcopy(ag.target_model)
    before, tbefore = named_before(model), named_before(ag.target_model)
    z = [vmin + (vmax - vmin) * k / (case["atoms"] - 1) for k in range(case["atoms"])]
    ds, ts = [], []
    for e in exps:
        ret, disc, term = window_facts(e, case["gamma"])
        s = torch.tensor(e[0]["state"])[None]
        sn = torch.tensor(e[-1]["next_state"])[None]
        ds.append(ref.dist(s)[0, int(e[0]["action"])])
        with torch.no_grad():
            t = cat_target(double, ret, disc, term, z, tgt.dist(sn)[0].tolist(),
                           ref.dist(sn)[0].tolist())
        if t is None:
            return ["near-tie"]
        ts.append(t)
    per = cat_losses(ds, ts)
    loss = accumulate(per, weights, case["acc"])
    deltas, _ = sgd_reference(ref, loss, lr, case["max_norm"])
    errors = [] if case["errors"] else None
    ag.update(exps, errors)
    size = compare_step(before, list(model.parameters()), deltas, case["agent"],
                        rtol=fine(case))
    for k, p in ag.target_model.named_parameters():
        require(torch.equal(p.detach(), tbefore[k]), "update changed the target network")
    for got in (buf.errors if case["weighted"] else []) + ([errors] if case["errors"] else []):
        require_close(np.array([float(np.asarray(x)) for x in got]), per.detach().numpy(),
                      "errors fed back", rtol=fine(case), atol=1e-5)
    if case["weighted"]:
        require_eq(len(buf.errors), 1, "number of priority updates")
    nt = len(exps) >= 2 and size > 1e-2 and any(not e[-1]["is_state_terminal"] for e in exps)
    return (["nontrivial"] if nt else []) + [case["agent"]]


def cat_common():
    return dict(common(), agent=pick(["CategoricalDQN", "CategoricalDoubleDQN"]),
                atoms=pick([2, 3, 4, 5, 6, 7, 8, 9, 51, 101]),
                vmin=pick([-1.0, -2.5, 0.0, -10.0, 0.5, 4.0, -30.0]),
                span=pick([1.0, 2.0, 3.7, 20.0]), grid=flag)


def cat_strategy():
    many = spread(0, 59).map(lambda x: dict(times=110, atoms=101) if x == 0 else {})
    return st.tuples(st.fixed_dictionaries(cat_common()), many).map(
        lambda cm: dict(cm[0], **cm[1]) if len(cm[0]["windows"]) > 3 else cm[0])


def run_categorical_recurrent(case):
    r = rng(case["seed"])
    n_act, (vmin, vmax), hidden = case["n_act"], support(case), 3
    rnn = dict(lstm=nn.LSTM, gru=nn.GRU)[case["rnn"]]
    model = A.randomize(RecurrentSequential(
        nn.Linear(3, hidden), nn.Tanh(), rnn(hidden, hidden),
        nn.Linear(hidden, n_act * case["atoms"]), AtomHead(n_act, case["atoms"], vmin, vmax)),
        case["seed"], case["scale"])
    eps = make_episodes(case, r, n_act, hidden, case["rnn"])
    lr = 0.5
    double = case["agent"] == "CategoricalDoubleDQN"
    ag = A.agent_class(case["agent"])(
        model, A.sgd(model, lr), replay_buffers.EpisodicReplayBuffer(10), case["gamma"],
        A.greedy_explorer(), replay_start_size=5, minibatch_size=5, recurrent=True,
        batch_accumulator=case["acc"], max_grad_norm=case["max_norm"])
    A.randomize(ag.target_model, case["seed"] + 1, case["scale"])
    ref, tgt = copy.deepcopy(model), copy.deepcopy(ag.target_model)
    before = named_before(model)
    z = [vmin + (vmax - vmin) * k / (case["atoms"] - 1) for k in range(case["atoms"])]

    def dists(m, xs, rs):
        return [m[4].dist(m[3](o))[0] for o, _ in seq_out(m, 2, xs, rs)]

    ds, ts = [], []
    for e in eps:
        d = dists(ref, [t["state"] for t in e], e[0]["recurrent_state"])
        with torch.no_grad():
            dn = dists(ref, [t["next_state"] for t in e], e[0]["next_recurrent_state"])
            tdn = dists(tgt, [t["next_state"] for t in e], e[0]["next_recurrent_state"])
        for i, t in enumerate(e):
            ds.append(d[i][t["action"]])
            ts.append(cat_target(double, float(t["reward"]), case["gamma"],
                                 t["is_state_terminal"], z, tdn[i].tolist(), dn[i].tolist()))
            if ts[-1] is None:
                return ["near-tie"]
    loss = accumulate(cat_losses(ds, ts), None, case["acc"])
    deltas, _ = sgd_reference(ref, loss, lr, case["max_norm"])
    ag.update_from_episodes(eps)
    size = compare_step(before, list(model.parameters()), deltas, "recurrent " + case["agent"],
                        rtol=fine(case))
    nt = len(eps) >= 2 and size > 1e-2
    return (["nontrivial"] if nt else []) + [case["agent"]]


def cat_rec_strategy():
    return st.fixed_dictionaries(dict(cat_common(), rnn=pick(["lstm", "gru"])))


# ------------------------------------------------------------------ quantile
class RecIQN(agents.iqn.ImplicitQuantileQFunction):
    """Records the thresholds it is evaluated with."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.calls = []

    def forward(self, x):
        f = super().forward(x)

        def g(taus):
            self.calls.append(taus.detach().clone())
            return f(taus)
        return g


class RecRIQN(agents.iqn.RecurrentImplicitQuantileQFunction):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.calls = []

    def forward(self, x, rs):
        f, rs = super().forward(x, rs)

        def g(taus):
            self.calls.append(taus.detach().clone())
            return f(taus)
        return g, rs


def quantiles(m, psi_x, taus):
    """Reference evaluation of one sample: (n_taus, n_actions)."""
    basis = m.phi[0].n_basis_functions
    out = []
    for tau in taus:
        emb = torch.stack([torch.cos(torch.tensor(np.pi * i) * tau)
                           for i in range(1, basis + 1)]).float()
        out.append(m.f((psi_x * torch.tanh(m.phi[0].linear(emb)))[None])[0])
    return torch.stack(out)


def q_parts(hidden, n_act, basis):
    return dict(phi=nn.Sequential(agents.iqn.CosineBasisLinear(basis, hidden), nn.Tanh()),
                f=nn.Linear(hidden, n_act))


def taus_of(calls, shape, what):
    got = [c for c in calls if tuple(c.shape) == shape]
    require(len(got) == 1, "%s: evaluated %d times with %s thresholds (calls: %s)", what,
            len(got), shape, [tuple(c.shape) for c in calls])
    t = got[0]
    require(float(t.min()) >= 0 and float(t.max()) <= 1, "%s: thresholds outside [0, 1]", what)
    if t.numel() > 3:
        require(len(set(t.reshape(-1).tolist())) > 1, "%s: thresholds all equal", what)
    return t


def quantile_loss(y, t, taus):
    """mean over targets, sum over predictions; y: (N,), t: (N',)"""
    total, mean = 0.0, 0.0
    for i in range(len(y)):
        for j in range(len(t)):
            d = t[j] - y[i]
            w = abs(float(taus[i]) - (1.0 if float(d) < 0 else 0.0))
            total = total + w * huber(d)
    return total / len(t), total / (len(t) * len(y))


def run_iqn(case):
    r = rng(case["seed"])
    seed_all(case["seed"])
    n_act, hidden, rec = case["n_act"], 3, case["recurrent"]
    parts = q_parts(hidden, n_act, case["basis"])
    if rec:
        model = RecRIQN(psi=RecurrentSequential(nn.Linear(3, hidden), nn.Tanh(),
                                                nn.GRU(hidden, hidden)), **parts)
    else:
        model = RecIQN(psi=nn.Sequential(nn.Linear(3, hidden), nn.Tanh()), **parts)
    A.randomize(model, case["seed"], case["scale"])
    weights, buf = None, replay_buffers.EpisodicReplayBuffer(10) if rec else \
        replay_buffers.ReplayBuffer(10)
    if rec:
        exps = make_episodes(case, r, n_act, hidden, "gru")
    else:
        exps = make_windows(case, r, n_act)
        if case["weighted"]:
            buf = A.PrioRecorder()
            weights = [float(x) for x in r.uniform(0.05, 1.0, size=len(exps))]
            for e, w in zip(exps, weights):
                e[0]["weight"] = w
    lr = 0.5
    N, Np, K = case["N"], case["N"] + case["dNp"], case["N"] + case["dNp"] + case["dK"]
    ag = agents.IQN(
        model, A.sgd(model, lr), buf, case["gamma"], A.greedy_explorer(), replay_start_size=5,
        minibatch_size=5, batch_accumulator=case["acc"], max_grad_norm=case["max_norm"],
        recurrent=rec, quantile_thresholds_N=N, quantile_thresholds_N_prime=Np,
        quantile_thresholds_K=K)
    A.randomize(ag.target_model, case["seed"] + 1, case["scale"])
    model.calls.clear()
    ag.target_model.calls.clear()
    ref, tgt = copy.deepcopy(model), copy.deepcopy(ag.target_model)
    before = named_before(model)
    errors = [] if (case["errors"] and not rec) else None
    if rec:
        ag.update_from_episodes(exps)
    else:
        ag.update(exps, errors)
    # samples in the order of the batch: (state feature, next feature, action, ret, disc, term)
    samples = []
    if rec:
        srt = sorted(exps, key=len, reverse=True)
        per_ep = []
        for e in srt:
            f = seq_out(ref.psi, 2, [t["state"] for t in e], e[0]["recurrent_state"])
            with torch.no_grad():
                fn = seq_out(tgt.psi, 2, [t["next_state"] for t in e],
                             e[0]["next_recurrent_state"])
            per_ep.append([(f[i][0][0], fn[i][0][0], t["action"], float(t["reward"]),
                            case["gamma"], t["is_state_terminal"]) for i, t in enumerate(e)])
        for s in range(max(map(len, per_ep))):
            samples += [p[s] for p in per_ep if s < len(p)]
    else:
        for e in exps:
            ret, disc, term = window_facts(e, case["gamma"])
            with torch.no_grad():
                fn = tgt.psi(torch.tensor(e[-1]["next_state"])[None])[0]
            samples.append((ref.psi(torch.tensor(e[0]["state"])[None])[0], fn,
                            int(e[0]["action"]), ret, disc, term))
    B = len(samples)
    taus = taus_of(model.calls, (B, N), "predictions")
    taus_p = taus_of(ag.target_model.calls, (B, Np), "targets")
    taus_t = taus_of(ag.target_model.calls, (B, K), "greedy actions")
    per, err = [], []
    for i, (f, fn, a, ret, disc, term) in enumerate(samples):
        y = quantiles(ref, f, taus[i])[:, a]
        with torch.no_grad():
            q = quantiles(tgt, fn, taus_t[i]).mean(0)
            if near_tie(q):
                return ["near-tie"]
            t = ret + disc * (0.0 if term else 1.0) * quantiles(tgt, fn, taus_p[i])[
                :, int(q.argmax())]
        l, m = quantile_loss(y, t, taus[i])
        per.append(l)
        err.append(float(m))
    loss = accumulate(torch.stack(per), weights, case["acc"])
    deltas, _ = sgd_reference(ref, loss, lr, case["max_norm"])
    size = compare_step(before, list(model.parameters()), deltas,
                        "IQN" + (" (recurrent)" if rec else ""))
    for got in (buf.errors if weights else []) + ([errors] if errors is not None else []):
        require_close(np.array([float(np.asarray(x)) for x in got]), err, "errors fed back",
                      rtol=5e-4, atol=1e-5)
    nt = B >= 2 and size > 1e-3
    return (["nontrivial"] if nt else []) + ["recurrent" if rec else "flat"]


def iqn_strategy():
    return st.fixed_dictionaries(dict(
        common(), recurrent=pick([False, False, True]), N=pick([1, 2, 3, 4, 9]),
        dNp=pick([1, 2, 1, 2, 8]), dK=pick([1, 2, 1, 2, 24]), basis=spread(2, 5)))


# ------------------------------------------------------------------ greedy acting
def run_greedy(case):
    """Acting follows the mean of the predicted distribution."""
    seed_all(case["seed"])
    r = rng(case["seed"])
    n_act = case["n_act"]
    obs = [r.randn(3).astype(np.float32) for _ in range(case["n_obs"])]
    if case["agent"] == "IQN":
        model = A.randomize(RecIQN(psi=nn.Sequential(nn.Linear(3, 3), nn.Tanh()),
                                   **q_parts(3, n_act, 3)), case["seed"], case["scale"])
        K = case["K"]
        ag = agents.IQN(model, A.sgd(model), replay_buffers.ReplayBuffer(10), 0.9,
                        A.greedy_explorer(), replay_start_size=5, minibatch_size=5,
                        quantile_thresholds_K=K, act_deterministically=case["det"])
        if case["eval"]:
            with ag.eval_mode():
                acts = ag.batch_act(obs)
        else:
            acts = ag.batch_act(obs)
        if case["eval"] and case["det"]:
            taus = torch.stack([torch.tensor([k / (K - 1) if K > 1 else 0.0
                                              for k in range(K)])] * len(obs))
            require_close(model.calls[-1], taus, "thresholds of deterministic acting", atol=1e-6)
        else:
            taus = taus_of(model.calls, (len(obs), K), "acting")
        with torch.no_grad():
            qs = [quantiles(model, model.psi(torch.tensor(o)[None])[0], taus[i]).mean(0)
                  for i, o in enumerate(obs)]
    else:
        vmin, vmax = support(case)
        model = A.randomize(A.DistQNet(n=n_act, atoms=case["atoms"], vmin=vmin, vmax=vmax),
                            case["seed"], case["scale"])
        ag = A.agent_class(case["agent"])(
            model, A.sgd(model), replay_buffers.ReplayBuffer(10), 0.9, A.greedy_explorer(),
            replay_start_size=5, minibatch_size=5)
        if case["eval"]:
            with ag.eval_mode():
                acts = ag.batch_act(obs)
        else:
            acts = ag.batch_act(obs)
        with torch.no_grad():
            qs = [(model.dist(torch.tensor(o)[None])[0]
                   * torch.linspace(vmin, vmax, case["atoms"])).sum(1) for o in obs]
    require_eq(len(acts), len(obs), "number of actions")
    for a, q in zip(acts, qs):
        if not near_tie(q):
            require_eq(int(a), int(q.argmax()), "greedy action for mean values %s" % q.tolist())
    return ["nontrivial", case["agent"]]


def greedy_strategy():
    return st.fixed_dictionaries(dict(
        agent=pick(["IQN", "CategoricalDQN", "CategoricalDoubleDQN"]),
        seed=spread(0, 10**6), n_act=spread(2, 5), n_obs=pick([1, 2, 3, 4, 12]), K=pick([1, 2, 3, 4, 5, 33]),
        det=flag, eval=flag, scale=pick([0.3, 1.0]),
        atoms=pick([2, 3, 5, 9, 51]), vmin=pick([-1.0, 0.0, -10.0, 4.0]),
        span=pick([1.0, 3.7, 20.0])))


QUICK_SCALE = 1.5

SUBS = [
    Sub("categorical", cat_strategy, run_categorical, quick=800, shards=3),
    Sub("categorical_recurrent", cat_rec_strategy, run_categorical_recurrent, quick=160, shards=1),
    Sub("quantile", iqn_strategy, run_iqn, quick=450, shards=3),
    Sub("greedy", greedy_strategy, run_greedy, quick=300, shards=1),
]
