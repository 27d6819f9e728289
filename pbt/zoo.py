"""One factory for every kind of agent, with random small networks, optimizers and settings."""
import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from pbt import agents as A
from pbt.core import rng
from pbt.gens import ends, flag, pick, seeds, spread

import pfrl
from pfrl import agents, explorers, replay_buffers
from pfrl.agents import acer as acer_mod

DISCRETE = ["DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "DPPL", "DPPGreedy",
            "CategoricalDQN", "CategoricalDoubleDQN", "IQN"]
RECURRENT_Q = ["RDQN", "RDoubleDQN", "RPAL", "RIQN"]
CONT = ["DDPG", "TD3", "SAC", "SACauto"]
ONPOL = ["PPO", "PPOc", "RPPO", "TRPO", "RTRPO", "A2C", "A2Cc"]
SINGLE = ["A3C", "RA3C", "REINFORCE", "RREINFORCE", "ACER", "RACER", "ACERc"]
REPLAY = [a for a in DISCRETE + RECURRENT_Q + CONT]
ALL = DISCRETE + RECURRENT_Q + CONT + ONPOL + SINGLE
BATCH = [a for a in ALL if a not in SINGLE]
CONT_ACTION = {"DDPG", "TD3", "SAC", "SACauto", "PPOc", "A2Cc", "ACERc"}


def seq(*layers):
    return nn.Sequential(*layers)


def optimizer(params, kind):
    params = list(params)
    if kind == "adam":
        return torch.optim.Adam(params, lr=3e-2)
    if kind == "rms":
        return pfrl.optimizers.RMSpropEpsInsideSqrt(params, lr=1e-2, momentum=0.5)
    return torch.optim.SGD(params, lr=5e-2, momentum=0.9)


def iqn(obs=3, n=3, hidden=4, basis=4):
    return A.iqn_net(obs, n, hidden, basis)


def riqn(obs=3, n=3, hidden=3, basis=4):
    return agents.iqn.RecurrentImplicitQuantileQFunction(
        psi=pfrl.nn.RecurrentSequential(nn.Linear(obs, hidden), nn.Tanh(), nn.GRU(hidden, hidden)),
        phi=seq(agents.iqn.CosineBasisLinear(basis, hidden), nn.Tanh()),
        f=nn.Linear(hidden, n))


def gauss_policy():
    return seq(nn.Linear(3, 4), nn.Tanh(), nn.Linear(4, 4),
               pfrl.policies.GaussianHeadWithDiagonalCovariance())


def squashed_policy():
    def head(x):
        m, s = torch.chunk(x, 2, dim=-1)
        base = torch.distributions.Independent(
            torch.distributions.Normal(m, nn.functional.softplus(s) + 0.1), 1)
        return torch.distributions.transformed_distribution.TransformedDistribution(
            base, [torch.distributions.transforms.TanhTransform(cache_size=1)])
    return seq(nn.Linear(3, 4), nn.Tanh(), nn.Linear(4, 4), pfrl.nn.lmbda.Lambda(head))


def softmax_policy():
    return seq(nn.Linear(3, 4), nn.Tanh(), nn.Linear(4, 3), pfrl.policies.SoftmaxCategoricalHead())


def vnet():
    return seq(nn.Linear(3, 4), nn.Tanh(), nn.Linear(4, 1))


def explorer(cfg, cont, boltzmann=True):
    k = cfg["explorer"] if cont or boltzmann else min(1, cfg["explorer"])
    if cont:
        if k == 0:
            return explorers.Greedy()
        if k == 1:
            return explorers.AdditiveGaussian(0.2, low=-1, high=1)
        return explorers.AdditiveOU(sigma=0.2)
    pick = lambda: np.random.randint(3)  # noqa: E731
    if k == 0:
        return explorers.Greedy()
    if k == 1:
        return explorers.LinearDecayEpsilonGreedy(1.0, 0.1, 20, pick)
    return explorers.Boltzmann(T=0.5)


def buffer(cfg, episodic=False, prio_ok=False):
    if episodic:
        return replay_buffers.EpisodicReplayBuffer(cfg["capacity"])
    if cfg["prio"] and prio_ok:
        return replay_buffers.PrioritizedReplayBuffer(cfg["capacity"], num_steps=cfg["n"],
                                                      betasteps=50, alpha=0.7)
    return replay_buffers.ReplayBuffer(cfg["capacity"], num_steps=cfg["n"])


def make(name, cfg, seed=None, learn=True, buf=None, extra=()):
    """A fresh agent; equal arguments give equal agents."""
    seed = cfg["netseed"] if seed is None else seed
    opt = cfg["opt"]

    def net(m, k=0):
        return A.randomize(m, seed + k, 0.6)

    rkw = dict(replay_start_size=cfg["start"] if learn else 10 ** 6,
               minibatch_size=cfg["batch"], update_interval=cfg["interval"])
    if not learn and cfg["capacity"] is not None:
        raise AssertionError("give capacity None with learn=False")
    gamma = cfg["gamma"]
    if name in DISCRETE + RECURRENT_Q:
        rec = name in RECURRENT_Q
        base = name[1:] if rec else name
        if rec:
            m = net(riqn() if base == "IQN" else A.rnn_qnet(kind=cfg["rnn"]))
        elif base.startswith("Categorical"):
            m = net(A.DistQNet())
        elif base.endswith("IQN"):
            m = net(iqn())
        elif cfg["noisy"] and base == "DQN":
            m = net(A.QNet())
            pfrl.nn.to_factorized_noisy(m, sigma_scale=0.5)
            A.randomize(m, seed + 7, 0.5)
        else:
            m = net(A.QNet())
        kw = dict(rkw, target_update_interval=cfg["tinterval"] * cfg["interval"], target_update_method=cfg["method"],
                  soft_update_tau=0.3, n_times_update=cfg["times"], max_grad_norm=cfg["max_norm"],
                  recurrent=rec, episodic_update_len=cfg["eplen"] if rec else None,
                  batch_accumulator=cfg["acc"])
        if base.endswith("IQN"):
            kw.update(quantile_thresholds_N=3, quantile_thresholds_N_prime=2,
                      quantile_thresholds_K=2)
            kw.pop("max_grad_norm")
        cls = A.agent_class(base)
        return cls(m, optimizer(m.parameters(), opt), (buffer(cfg, rec, True) if buf is None else buf), gamma,
                   explorer(cfg, False, "Categorical" not in base), **kw)
    burn = dict(burnin_action_func=(lambda: np.random.uniform(-1, 1, 2).astype(np.float32))
                if cfg["burnin"] else None)
    if name in CONT:
        q1, q2 = net(A.SAQ(), 1), net(A.SAQ(), 2)
        b = buffer(cfg) if buf is None else buf
        if name == "DDPG":
            p = net(A.det_policy())
            return agents.DDPG(p, q1, optimizer(p.parameters(), opt),
                               optimizer(q1.parameters(), opt), b, gamma, explorer(cfg, True),
                               target_update_interval=cfg["tinterval"] * cfg["interval"],
                               target_update_method=cfg["method"], soft_update_tau=0.3,
                               n_times_update=cfg["times"], **rkw, **burn)
        if name == "TD3":
            p = net(A.det_policy())
            return agents.TD3(p, q1, q2, optimizer(p.parameters(), opt),
                              optimizer(q1.parameters(), opt), optimizer(q2.parameters(), opt), b,
                              gamma, explorer(cfg, True), soft_update_tau=0.3,
                              max_grad_norm=cfg["max_norm"], policy_update_delay=2,
                              n_times_update=cfg["times"], **rkw, **burn)
        p = net(squashed_policy())
        kw = dict(entropy_target=-2.0, temperature_optimizer_lr=0.03) if name == "SACauto" else {}
        return agents.SoftActorCritic(
            p, q1, q2, optimizer(p.parameters(), opt), optimizer(q1.parameters(), opt),
            optimizer(q2.parameters(), opt), b, gamma, soft_update_tau=0.3,
            max_grad_norm=cfg["max_norm"], initial_temperature=0.5, **kw, **rkw, **burn, **dict(extra))
    norm = (pfrl.nn.EmpiricalNormalization(3, clip_threshold=5, until=cfg["until"])
            if cfg["norm"] else None)
    det = dict(dict(act_deterministically=cfg["det"]), **dict(extra))
    if name in ("PPO", "PPOc", "RPPO"):
        if name == "RPPO":
            m = net(A.RACNet(kind=cfg["rnn"]))
        else:
            m = net(pfrl.nn.Branched(gauss_policy() if name == "PPOc" else softmax_policy(),
                                     vnet()))
        return agents.PPO(m, optimizer(m.parameters(), opt), obs_normalizer=norm, gamma=gamma,
                          update_interval=cfg["interval"] + 3, minibatch_size=2, epochs=2,
                          clip_eps_vf=cfg["clipvf"], recurrent=name == "RPPO",
                          standardize_advantages=True, max_grad_norm=cfg["max_norm"], **det)
    if name in ("TRPO", "RTRPO"):
        from pbt.props.p13 import RPi, RV
        p = net(RPi() if name == "RTRPO" else softmax_policy())
        v = net(RV() if name == "RTRPO" else vnet(), 1)
        return agents.TRPO(p, v, optimizer(v.parameters(), opt), obs_normalizer=norm, gamma=gamma,
                           update_interval=cfg["interval"] + 3, vf_batch_size=2, vf_epochs=2,
                           recurrent=name == "RTRPO", **det)
    if name in ("A2C", "A2Cc"):
        m = net(pfrl.nn.Branched(gauss_policy() if name == "A2Cc" else softmax_policy(), vnet()))
        return agents.A2C(m, optimizer(m.parameters(), opt), gamma=gamma,
                          num_processes=cfg["n_env"], update_steps=cfg["interval"] + 1,
                          use_gae=cfg["prio"], max_grad_norm=cfg["max_norm"], **det)
    if name in ("A3C", "RA3C"):
        m = net(A.RACNet(kind=cfg["rnn"]) if name == "RA3C" else pfrl.nn.Branched(
            softmax_policy(), vnet()))
        m.share_memory()
        o = pfrl.optimizers.SharedRMSpropEpsInsideSqrt(m.parameters(), lr=1e-2)
        return share(agents.A3C(m, o, t_max=cfg["interval"] + 1, gamma=gamma,
                                recurrent=name == "RA3C", max_grad_norm=cfg["max_norm"], **det))
    if name in ("REINFORCE", "RREINFORCE"):
        if name == "RREINFORCE":
            m = net(pfrl.nn.RecurrentSequential(
                nn.Linear(3, 3), nn.GRU(3, 3), nn.Linear(3, 3),
                pfrl.policies.SoftmaxCategoricalHead()))
        else:
            m = net(softmax_policy())
        return agents.REINFORCE(m, optimizer(m.parameters(), opt), beta=0.01,
                                batchsize=cfg["times"], backward_separately=cfg["prio"],
                                recurrent=name == "RREINFORCE", max_grad_norm=cfg["max_norm"],
                                **det)
    # ACER
    q = lambda i: seq(nn.Linear(i, 3), pfrl.q_functions.DiscreteActionValueHead())  # noqa: E731
    pi = lambda i: seq(nn.Linear(i, 3), pfrl.policies.SoftmaxCategoricalHead())  # noqa: E731
    if name == "ACER":
        m = seq(nn.Linear(3, 4), nn.Tanh(), acer_mod.ACERDiscreteActionHead(pi(4), q(4)))
    elif name == "RACER":
        m = pfrl.nn.RecurrentSequential(nn.Linear(3, 3), nn.GRU(3, 3),
                                        acer_mod.ACERDiscreteActionHead(pi(3), q(3)))
    else:
        m = acer_mod.ACERContinuousActionHead(gauss_policy(), vnet(), A.SAQ())
    net(m)
    m.share_memory()
    o = pfrl.optimizers.SharedRMSpropEpsInsideSqrt(m.parameters(), lr=1e-2)
    return share(agents.ACER(m, o, t_max=cfg["interval"] + 1, gamma=gamma,
                       replay_buffer=buffer(cfg, True) if buf is None else buf, n_times_replay=cfg["times"],
                       replay_start_size=cfg["start"] if learn else 10 ** 6,
                       recurrent=name == "RACER", max_grad_norm=cfg["max_norm"], **det))


def share(ag):
    """What train_agent_async does before an asynchronous agent learns."""
    for k in getattr(ag, "shared_attributes", ()):
        v = getattr(ag, k)
        if isinstance(v, nn.Module):
            v.share_memory()
        else:
            for s in v.state_dict()["state"].values():
                for t in s.values():
                    if torch.is_tensor(t):
                        t.share_memory_()
    return ag


def config():
    """Strategy of agent settings."""
    return st.fixed_dictionaries(dict(
        netseed=seeds, opt=pick(["adam", "sgd", "rms"]), gamma=pick(
            [0.9, 0.99, 0.9, 0.99, 1.0, 0.0]), explorer=spread(0, 2), prio=flag, n=pick([1, 1, 2, 3, 7]),
        capacity=pick([None, 15, 40]), start=spread(3, 6), batch=spread(1, 3),
        interval=spread(1, 3), tinterval=spread(1, 3),
        method=pick(["hard", "soft"]), times=spread(1, 2),
        max_norm=pick([None, 0.5]), eplen=pick([None, 2, 3]),
        acc=pick(["mean", "sum"]), burnin=flag, noisy=flag,
        norm=flag, until=pick([None, 6]), det=flag,
        clipvf=pick([None, 0.2]), rnn=pick(["gru", "lstm"]),
        n_env=pick([1, 2, 3, 1, 2, 3, 5, 9])))


def fix(name, cfg):
    """Adjust the settings to what the agent supports."""
    cfg = dict(cfg)
    if name in SINGLE:
        cfg["n_env"] = 1
    if cfg["start"] < cfg["batch"]:
        cfg["start"] = cfg["batch"]
    return cfg


def tensors(ag):
    """All tensors of the agent's modules and optimizers, by name (cloned)."""
    out = {}
    for k, v in vars(ag).items():
        if isinstance(v, nn.Module):
            for n, p in v.state_dict().items():
                out["%s.%s" % (k, n)] = p.detach().clone()
        elif isinstance(v, torch.optim.Optimizer):
            sd = v.state_dict()
            for i, s in sd["state"].items():
                for n, p in s.items():
                    out["%s[%s].%s" % (k, i, n)] = (p.detach().clone() if torch.is_tensor(p)
                                                    else p)
    return out


def diff(a, b):
    """Name of the first tensor which differs, or None."""
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return "%s (missing)" % k
        x, y = a[k], b[k]
        if torch.is_tensor(x) or torch.is_tensor(y):
            x, y = torch.as_tensor(x), torch.as_tensor(y)
            if x.shape != y.shape or not torch.equal(torch.nan_to_num(x.double()),
                                                     torch.nan_to_num(y.double())):
                return k
        elif x != y:
            return k
    return None


def freeze():
    import random
    return random.getstate(), np.random.get_state(), torch.get_rng_state()


def thaw(s):
    import random
    random.setstate(s[0])
    np.random.set_state(s[1])
    torch.set_rng_state(s[2])


def world(seed, n_env, rows):
    """Deterministic list of steps: observations, rewards, done and reset per environment."""
    r = rng(seed)
    obs = [r.randn(3).astype(np.float32) for _ in range(n_env)]
    out = []
    for row in rows:
        done = [bool(ends(row, i) & 1) for i in range(n_env)]
        reset = [bool(ends(row, i) & 2) for i in range(n_env)]
        rew = [float(np.float32(x)) for x in r.randn(n_env)]
        nxt = [r.randn(3).astype(np.float32) for _ in range(n_env)]
        out.append((obs, rew, nxt, done, reset))
        obs = [r.randn(3).astype(np.float32) if done[i] or reset[i] else nxt[i]
               for i in range(n_env)]
    return out


def step(ag, s, single):
    """One act/observe round; returns the actions."""
    obs, rew, nxt, done, reset = s
    if single:
        a = [ag.act(obs[0])]
        ag.observe(nxt[0], rew[0], done[0], reset[0])
    else:
        a = list(ag.batch_act(obs))
        ag.batch_observe(nxt, rew, done, reset)
    return [np.array(x) for x in a]


ROW = st.one_of(st.just(0), st.just(0), spread(0, 63))


def windows(buf):
    """Contents of a replay buffer as a list of (keys of the stored transitions)."""
    if isinstance(buf, replay_buffers.EpisodicReplayBuffer):
        return [list(e) for e in buf.episodic_memory]
    return [list(w) for w in (buf.memory.data if hasattr(buf.memory, "data") else buf.memory)]
