"""Small networks, instrumented parts and agent factories shared by the agent properties."""
import numpy as np
import torch
from torch import nn

import pfrl
from pbt.gens import ends
from pfrl import action_value as av
from pfrl import agents, explorers, replay_buffers

CPU = torch.device("cpu")


# --------------------------------------------------------------------- optimizers
class Bump(torch.optim.Optimizer):
    """Adds 1 to every parameter on each step, so that parameters count updates."""

    def __init__(self, params):
        super().__init__(params, {})

    def step(self, closure=None):
        with torch.no_grad():
            for g in self.param_groups:
                for p in g["params"]:
                    p.add_(1.0)


def sgd(module_or_params, lr=1.0):
    ps = list(module_or_params.parameters()
              if isinstance(module_or_params, nn.Module) else module_or_params)
    return torch.optim.SGD(ps, lr=lr)


def params_of(module):
    return {k: v.detach().clone() for k, v in module.state_dict().items()}


def flat(module):
    return torch.cat([p.detach().reshape(-1).double() for p in module.parameters()]).numpy()


def randomize(module, seed, scale=0.7):
    g = torch.Generator().manual_seed(int(seed))
    with torch.no_grad():
        for p in module.parameters():
            p.copy_(torch.randn(p.shape, generator=g) * scale)
    return module


# --------------------------------------------------------------------- models
class QNet(nn.Module):
    """Linear -> tanh -> linear -> DiscreteActionValue; logs its inputs when asked."""

    def __init__(self, obs=3, n=3, hidden=4, log=None):
        super().__init__()
        self.l1 = nn.Linear(obs, hidden)
        self.l2 = nn.Linear(hidden, n)

    def q(self, x):
        return self.l2(torch.tanh(self.l1(x.float())))

    def forward(self, x):
        return av.DiscreteActionValue(self.q(x))


class DistQNet(nn.Module):
    def __init__(self, obs=3, n=3, atoms=5, vmin=-1.0, vmax=1.0, hidden=4):
        super().__init__()
        self.l1 = nn.Linear(obs, hidden)
        self.l2 = nn.Linear(hidden, n * atoms)
        self.n, self.atoms = n, atoms
        self.register_buffer("z", torch.linspace(vmin, vmax, atoms))

    def dist(self, x):
        h = self.l2(torch.tanh(self.l1(x.float())))
        return torch.softmax(h.reshape(-1, self.n, self.atoms), dim=2)

    def forward(self, x):
        return av.DistributionalDiscreteActionValue(self.dist(x), self.z)


def iqn_net(obs=3, n=3, hidden=4, basis=4):
    return agents.iqn.ImplicitQuantileQFunction(
        psi=nn.Sequential(nn.Linear(obs, hidden), nn.Tanh()),
        phi=nn.Sequential(agents.iqn.CosineBasisLinear(basis, hidden), nn.Tanh()),
        f=nn.Linear(hidden, n))


class SAQ(nn.Module):
    """State-action Q-function."""

    def __init__(self, obs=3, act=2, hidden=4):
        super().__init__()
        self.l1 = nn.Linear(obs + act, hidden)
        self.l2 = nn.Linear(hidden, 1)

    def forward(self, x):
        s, a = x
        return self.l2(torch.tanh(self.l1(torch.cat([s.float(), a.float()], dim=-1))))


class FixedNoise(torch.distributions.Distribution):
    """A normal distribution whose samples are loc + scale * (fixed noise)."""

    arg_constraints = {}
    has_rsample = True

    def __init__(self, loc, scale, noise):
        self.loc, self.scale, self.noise = loc, scale, noise
        super().__init__(batch_shape=loc.shape[:-1], event_shape=loc.shape[-1:],
                         validate_args=False)

    @property
    def mean(self):
        return self.loc

    def rsample(self, sample_shape=torch.Size()):
        return self.loc + self.scale * self.noise

    def sample(self, sample_shape=torch.Size()):
        return self.rsample().detach()

    def log_prob(self, x):
        return torch.distributions.Normal(self.loc, self.scale).log_prob(x).sum(-1)

    def entropy(self):
        return torch.distributions.Normal(self.loc, self.scale).entropy().sum(-1)


class GaussNet(nn.Module):
    """Policy with learned mean and scale and deterministic 'samples'."""

    def __init__(self, obs=3, act=2, hidden=4, noise=(0.3, -0.7)):
        super().__init__()
        self.l1 = nn.Linear(obs, hidden)
        self.l2 = nn.Linear(hidden, 2 * act)
        self.act = act
        self.register_buffer("noise", torch.tensor(list(noise))[:act])

    def forward(self, x):
        h = self.l2(torch.tanh(self.l1(x.float())))
        loc, ps = h[..., :self.act], h[..., self.act:]
        return FixedNoise(loc, nn.functional.softplus(ps) + 0.1, self.noise)


def det_policy(obs=3, act=2, hidden=4):
    return nn.Sequential(nn.Linear(obs, hidden), nn.Tanh(), nn.Linear(hidden, act), nn.Tanh(),
                         pfrl.policies.DeterministicHead())


def rnn_qnet(obs=3, n=3, hidden=3, kind="lstm"):
    rnn = dict(lstm=nn.LSTM, gru=nn.GRU, rnn=nn.RNN)[kind]
    return pfrl.nn.RecurrentSequential(
        nn.Linear(obs, hidden), nn.Tanh(), rnn(hidden, hidden), nn.Linear(hidden, n),
        pfrl.q_functions.DiscreteActionValueHead())


# --------------------------------------------------------------------- buffers
def recording(cls):
    """A subclass of the buffer class which logs sample / update_errors calls."""

    class Rec(cls):
        def __init__(self, *a, **k):
            self.log = []
            super().__init__(*a, **k)

        def sample(self, n):
            out = super().sample(n)
            self.log.append(("sample", n, len(out)))
            return out

        def sample_episodes(self, n, max_len=None):
            out = super().sample_episodes(n, max_len)
            self.log.append(("episodes", n, len(out)))
            return out

    Rec.__name__ = cls.__name__
    return Rec


class LastBuffer:
    """Minimal stand-in accepted by agents whose update(...) is called directly."""

    capacity = None

    def __init__(self):
        self.errors = []

    def append(self, **k):
        pass

    def stop_current_episode(self, env_id=0):
        pass

    def sample(self, n):
        raise AssertionError

    def __len__(self):
        return 0


class PrioRecorder(replay_buffers.PrioritizedReplayBuffer):
    """A PrioritizedReplayBuffer that records the errors fed back."""

    def __init__(self):
        super().__init__()
        self.errors = []

    def update_errors(self, errors):
        self.errors.append([float(np.asarray(e)) for e in errors])


def greedy_explorer():
    return explorers.Greedy()


def agent_class(name):
    from pfrl.agents import dpp
    return getattr(agents, name, None) or getattr(dpp, name)


# --------------------------------------------------------------------- actor-critics
class ACNet(nn.Module):
    """(policy, value) network; remembers the inputs of calls made with gradients on."""

    def __init__(self, obs=3, n=3, hidden=4, gauss=False):
        super().__init__()
        self.l1 = nn.Linear(obs, hidden)
        self.pi = nn.Linear(hidden, 2 * n if gauss else n)
        self.v = nn.Linear(hidden, 1)
        self.n, self.gauss = n, gauss
        self.calls = []

    def distrib(self, h):
        z = self.pi(h)
        if self.gauss:
            return torch.distributions.Independent(torch.distributions.Normal(
                z[..., :self.n], nn.functional.softplus(z[..., self.n:]) + 0.2), 1)
        return torch.distributions.Categorical(logits=z)

    def forward(self, x):
        if torch.is_grad_enabled():
            self.calls.append(x.detach().clone())
        h = torch.tanh(self.l1(x.float()))
        return self.distrib(h), self.v(h)


class RACNet(pfrl.nn.Recurrent, nn.Module):
    """Recurrent (policy, value) network over packed sequences."""

    def __init__(self, obs=3, n=3, hidden=4, kind="gru"):
        super().__init__()
        self.l1 = nn.Linear(obs, hidden)
        self.rnn = dict(gru=nn.GRU, lstm=nn.LSTM)[kind](hidden, hidden)
        self.pi = nn.Linear(hidden, n)
        self.v = nn.Linear(hidden, 1)
        self.calls = []

    def forward(self, pack, rs):
        P = nn.utils.rnn.PackedSequence
        if torch.is_grad_enabled():
            self.calls.append(([s.detach().clone() for s in unpack(pack)]))
        h = torch.tanh(self.l1(pack.data.float()))
        out, rs = self.rnn(P(h, pack.batch_sizes, pack.sorted_indices, pack.unsorted_indices), rs)
        logits = self.pi(out.data)
        v = P(self.v(out.data), pack.batch_sizes, pack.sorted_indices, pack.unsorted_indices)
        return (torch.distributions.Categorical(logits=logits), v), rs

    # reference: one step for one sequence
    def one(self, x, rs):
        h = torch.tanh(self.l1(torch.as_tensor(x).float()[None]))
        out, rs = self.rnn(h[None], rs)
        return torch.distributions.Categorical(logits=self.pi(out[0])), self.v(out[0]), rs


def unpack(pack):
    """Sequences of a PackedSequence, in the order of the packed batch."""
    data, sizes = pack.data, pack.batch_sizes.tolist()
    seqs = [[] for _ in range(sizes[0])]
    k = 0
    for n in sizes:
        for j in range(n):
            seqs[j].append(data[k])
            k += 1
    return [torch.stack(s) for s in seqs]


def drive(ag, n_env, rows, r, single=False, start=None, rscale=1.0):
    """Generator driving agent through rows of (done, reset) bits; yields each step's
    transitions (list of dicts, one per environment) after observe returned."""
    obs = start or [r.randn(3).astype(np.float32) for _ in range(n_env)]
    for row in rows:
        done = [bool(ends(row, i) & 1) for i in range(n_env)]
        reset = [bool(ends(row, i) & 2) for i in range(n_env)]
        rew = [float(np.float32(x)) * rscale for x in r.randn(n_env)]
        # environments may give Python integers, too
        rew = [int(np.rint(x)) if r.randint(4) == 0 else x for x in rew]
        nxt = [r.randn(3).astype(np.float32) for _ in range(n_env)]
        acts = [ag.act(obs[0])] if single else list(ag.batch_act(obs))
        step = [dict(state=obs[i], action=acts[i], reward=rew[i], next_state=nxt[i],
                     done=done[i], reset=reset[i]) for i in range(n_env)]
        yield "acted", step
        if single:
            ag.observe(nxt[0], rew[0], done[0], reset[0])
        else:
            ag.batch_observe(nxt, rew, done, reset)
        yield "observed", step
        obs = [r.randn(3).astype(np.float32) if (done[i] or reset[i]) else nxt[i]
               for i in range(n_env)]


def key(x):
    """Identity of a generated state."""
    return np.asarray(x, dtype=np.float32).tobytes()


def load(dst, src):
    with torch.no_grad():
        for a, b in zip(dst.parameters(), src.parameters()):
            a.copy_(b)
