"""P08: off-policy agents update exactly on their configured schedule."""
import numpy as np
import torch
from hypothesis import strategies as st

from pbt import agents as A
from pbt.core import Sub, require, require_eq, rng, seed_all
from pbt.gens import ends, pick, flag, seeds, sized_list, spread

from pfrl import agents, replay_buffers

RULE = """A case is an agent class, a schedule configuration (start size, interval, repeats, batch
size, target interval, hard/soft, tau, delay, buffer kind and window) and a history of training and
evaluation segments over 1-11 environments with episode ends and resets. An optimizer that adds
one to every parameter makes parameters count updates. Non-trivial: at least two updates and at
least one target synchronisation that changes the target took place."""
ASSUMPTIONS = ["target parameters compared at 1e-4 relative (float32 recursion)"]

DISCRETE = ["DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "DPPL", "DPPGreedy",
            "CategoricalDQN", "CategoricalDoubleDQN", "IQN"]
CONT = ["DDPG", "TD3", "SoftActorCritic"]
MARK = np.array([9.0, -9.0], dtype=np.float32)


def zero(m):
    with torch.no_grad():
        for p in m.parameters():
            p.zero_()
    return m


def make_buffer(case):
    if case["agent"] == "Recurrent":
        return A.recording(replay_buffers.EpisodicReplayBuffer)(case["capacity"])
    if case["prio"] and case["agent"] in DISCRETE:
        return A.recording(replay_buffers.PrioritizedReplayBuffer)(
            case["capacity"], num_steps=case["n"])
    return A.recording(replay_buffers.ReplayBuffer)(case["capacity"], num_steps=case["n"])


def build(case):
    """Returns agent, {name: (module, target or None)}"""
    name = case["agent"]
    buf = make_buffer(case)
    kw = dict(replay_start_size=case["start"], minibatch_size=case["batch"],
              update_interval=case["interval"], soft_update_tau=case["tau"])
    burn = dict(burnin_action_func=(lambda: MARK.copy()) if case["burnin"] else None)
    tkw = dict(target_update_interval=case["interval"] * case["tmult"],
               target_update_method=case["method"], n_times_update=case["times"])
    if name in DISCRETE or name == "Recurrent":
        if name.startswith("Categorical"):
            m = A.DistQNet()
        elif name == "IQN":
            m = A.iqn_net()
        elif name == "Recurrent":
            m = A.rnn_qnet()
            kw["recurrent"] = True
        else:
            m = A.QNet()
        if name == "IQN":
            kw.update(quantile_thresholds_N=3, quantile_thresholds_N_prime=2,
                      quantile_thresholds_K=2)
        zero(m)
        cls = agents.DQN if name == "Recurrent" else A.agent_class(name)
        ag = cls(m, A.Bump(m.parameters()), buf, 0.9, A.greedy_explorer(), **kw, **tkw)
        return ag, buf, dict(model=m)
    q1, q2 = zero(A.SAQ()), zero(A.SAQ())
    if name == "DDPG":
        pol = zero(A.det_policy())
        ag = agents.DDPG(pol, q1, A.Bump(pol.parameters()), A.Bump(q1.parameters()), buf, 0.9,
                         A.greedy_explorer(), **kw, **tkw, **burn)
        return ag, buf, dict(policy=pol, q=q1)
    if name == "TD3":
        pol = zero(A.det_policy())
        ag = agents.TD3(pol, q1, q2, A.Bump(pol.parameters()), A.Bump(q1.parameters()),
                        A.Bump(q2.parameters()), buf, 0.9, A.greedy_explorer(),
                        policy_update_delay=case["delay"], n_times_update=case["times"],
                        **kw, **burn)
        return ag, buf, dict(policy=pol, q1=q1, q2=q2)
    pol = zero(A.GaussNet())
    ag = agents.SoftActorCritic(pol, q1, q2, A.Bump(pol.parameters()), A.Bump(q1.parameters()),
                                A.Bump(q2.parameters()), buf, 0.9,
                                act_deterministically=False, **kw, **burn)
    return ag, buf, dict(policy=pol, q1=q1, q2=q2)


def targets(ag, name):
    if name in DISCRETE or name == "Recurrent":
        return dict(model=ag.target_model)
    if name == "DDPG":
        return dict(policy=ag.target_policy, q=ag.target_q_function)
    if name == "TD3":
        return dict(policy=ag.target_policy, q1=ag.target_q_func1, q2=ag.target_q_func2)
    return dict(q1=ag.target_q_func1, q2=ag.target_q_func2)


class Model:
    """Arithmetic model of the schedule."""

    def __init__(self, case, names, tnames):
        self.c = case
        self.t = case["offset"]
        self.src = {k: 0.0 for k in names}
        self.tgt = {k: 0.0 for k in tnames}
        self.updates = 0
        self.policy_updates = 0
        self.syncs = 0
        self.pending = {}
        self.size = 0
        self.episodes = 0
        self.cur = {}
        self.eps = []

    def soft(self):
        tau = self.c["tau"]
        for k in self.tgt:
            if self.tgt[k] != self.src[k]:
                self.syncs += 1
            self.tgt[k] = (1 - tau) * self.tgt[k] + tau * self.src[k]

    def hard_or_soft(self):
        if self.c["method"] == "soft":
            self.soft()
        else:
            for k in self.tgt:
                if self.tgt[k] != self.src[k]:
                    self.syncs += 1
                self.tgt[k] = self.src[k]

    def grow(self, k=1):
        self.size += k
        cap = self.c["capacity"]
        if cap is not None:
            self.size = min(self.size, cap)

    def append(self, env, done, reset):
        if self.c["agent"] == "Recurrent":
            self.cur[env] = self.cur.get(env, 0) + 1
            if done or reset:
                self.eps.append(self.cur[env])
                self.cur[env] = 0
                cap = self.c["capacity"]
                while cap is not None and sum(self.eps) > cap:
                    self.eps.pop(0)
                self.size = sum(self.eps)
            return
        n = self.c["n"]
        p = self.pending.get(env, 0) + 1   # transitions waiting for their window to fill
        if done or reset:
            self.grow(min(p, n))
            p = 0
        elif p >= n:
            self.grow(1)
            p = n - 1
        self.pending[env] = p

    def step(self, env, done, reset):
        c = self.c
        self.t += 1
        if c["agent"] in DISCRETE + ["DDPG", "Recurrent"]:
            if self.t % (c["interval"] * c["tmult"]) == 0:
                self.hard_or_soft()
        self.append(env, done, reset)
        if self.size < c["start"] or self.t % c["interval"]:
            return
        if c["agent"] == "Recurrent" and len(self.eps) < c["batch"]:
            return
        for _ in range(1 if c["agent"] == "SoftActorCritic" else c["times"]):
            self.updates += 1
            if c["agent"] == "TD3":
                self.src["q1"] += 1
                self.src["q2"] += 1
                if self.updates % c["delay"] == 0:
                    self.src["policy"] += 1
                    self.policy_updates += 1
                    self.soft()
            else:
                for k in self.src:
                    self.src[k] += 1
                self.policy_updates += 1
                if c["agent"] == "SoftActorCritic":
                    self.soft()


def check_params(module, want, what):
    for k, p in module.named_parameters():
        err = float((p.detach().double() - want).abs().max())
        require(err <= 1e-4 * max(1.0, abs(want)), "%s (%s): parameters show %s updates, "
                "expected %.6g", what, k, p.detach().reshape(-1)[:3].tolist(), want)


def run_schedule(case):
    case = dict(case)
    cap = case["capacity"]
    case["start"] = max(case["start"], case["batch"])
    if cap is not None:
        case["capacity"] = max(cap, case["start"])
    seed_all(case["seed"])
    r = rng(case["seed"])
    ag, buf, mods = build(case)
    tgts = targets(ag, case["agent"])
    m = Model(case, mods, tgts)
    ag.t = case["offset"]  # as the training functions do
    N = case["n_env"]
    single = N == 1 and case["single"]
    obs = [r.randn(3).astype(np.float32) for _ in range(N)]
    eval_obs = [r.randn(3).astype(np.float32) for _ in range(N)]

    def act(o):
        return [ag.act(o[0])] if single else list(ag.batch_act(o))

    def observe(o, rew, d, rs):
        if single:
            ag.observe(o[0], rew[0], d[0], rs[0])
        else:
            ag.batch_observe(o, rew, d, rs)

    evals = 0
    for seg in case["segments"]:
        for row in seg["rows"]:
            bits = [ends(row, i) for i in range(N)]
            done = [bool(b & 1) for b in bits]
            reset = [bool(b & 2) for b in bits]
            rew = [float(x) for x in r.randn(N)]
            nxt = [r.randn(3).astype(np.float32) for _ in range(N)]
            if seg["eval"]:
                evals += 1
                before = len(buf.log)
                with ag.eval_mode():
                    act(eval_obs)
                    observe(nxt, rew, done, reset)
                require(ag.training, "agent not back in training mode")
                require_eq(len(buf.log), before, "samples drawn in evaluation mode")
                eval_obs = nxt
            else:
                a = act(obs)
                if case["burnin"] and case["agent"] in CONT:
                    for x in a:
                        require_eq(bool(np.array_equal(np.asarray(x), MARK)),
                                   m.policy_updates == 0,
                                   "burn-in action used (policy updates so far: %d)"
                                   % m.policy_updates)
                observe(nxt, rew, done, reset)
                for i in range(N):
                    m.step(i, done[i], reset[i])
                obs = [r.randn(3).astype(np.float32) if (done[i] or reset[i]) else nxt[i]
                       for i in range(N)]
            require_eq(len(buf), m.size, "transitions in the buffer after step %d" % m.t)
            require_eq(len(buf.log), m.updates, "batches sampled after step %d" % m.t)
            for k, mod in mods.items():
                check_params(mod, m.src[k], "%s after step %d%s"
                             % (k, m.t, " (evaluation)" if seg["eval"] else ""))
            for k, mod in tgts.items():
                check_params(mod, m.tgt[k], "target %s after step %d" % (k, m.t))
    for kind, n, got in buf.log:
        require_eq((kind, n, got), ("episodes" if case["agent"] == "Recurrent" else "sample",
                                    case["batch"], case["batch"]), "sampled batch")
    nt = m.updates >= 2 and m.syncs >= 1
    return (["nontrivial"] if nt else []) + [case["agent"]] + (["eval"] if evals else [])


def strategy(names):
    # episode ends in about a quarter of the steps
    row = st.one_of(st.just(0), st.just(0), st.integers(0, 255))
    seg = st.fixed_dictionaries(dict(
        eval=pick([False, False, False, True]), rows=sized_list(row, 1, 14)))
    return st.fixed_dictionaries(dict(
        agent=pick(names), seed=seeds, n_env=pick([1, 2, 3, 4, 1, 2, 6, 11]), single=flag,
        start=st.one_of(st.just(1), spread(1, 12)), batch=st.one_of(st.just(1), spread(1, 5)), interval=spread(1, 4), tmult=spread(1, 4),
        times=spread(1, 3), method=pick(["hard", "soft"]),
        tau=pick([0.1, 0.25, 0.5, 1.0]), delay=spread(1, 3), burnin=flag,
        capacity=st.one_of(st.none(), spread(4, 30)), prio=flag, n=spread(1, 3), offset=pick([0, 0, 0, 1, 5, 997]),
        segments=st.lists(seg, min_size=2, max_size=4)))


SUBS = [
    Sub("discrete", lambda: strategy(DISCRETE), run_schedule, quick=500, shards=3),
    Sub("continuous", lambda: strategy(CONT), run_schedule, quick=400, shards=3),
    Sub("recurrent", lambda: strategy(["Recurrent"]), run_schedule, quick=140, shards=2),
]
