"""P33: the statistics that agents report describe what they did."""
import logging
import math

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from pbt import zoo
from pbt.core import HarnessError, Sub, require, require_close, require_eq, seed_all
from pbt.gens import flag, pick, seeds, sized_list, spread

from pfrl.utils.recurrent import one_step_forward

logging.getLogger("pfrl").setLevel(logging.CRITICAL)

RULE = """A case is one of the 33 agents of the zoo with generated settings (among them the windows and decays of the statistics) and a
history of training steps, ends of episodes, evaluation steps and reads of the statistics over 1-3 environments. What the agent really did
is watched from outside: losses as they are differentiated, optimizer steps, minibatches as they leave the replay buffer, and the networks'
outputs for what was acted on or sampled; each read of the statistics is compared with averages of these over the documented
window (or decaying). Non-trivial: two or more reads with an update in between."""
ASSUMPTIONS = ["average_q of IQN, statistics of recurrent agents about their updates, average_kl of ACER and average_actor with a value loss are not compared",
               "windows that are not documented (1000 predictions, 100 losses of off-policy agents) are those of the code as it was"]


def mean(xs, window=None):
    xs = list(xs)[-window:] if window else list(xs)
    return float(np.mean(xs)) if xs else math.nan


class Watch:
    """Losses and optimizer steps of an agent, by the name of the network they train."""

    def __init__(self, ag, nets):
        self.nets = nets            # name -> (module, optimizer), most specific first
        self.losses = {k: [] for k in nets}
        self.steps = {k: 0 for k in nets}
        self.total = []             # (name, loss) in order
        self.undo = []
        for k, (m, o) in nets.items():
            self.wrap(k, o)
        self.orig = torch.autograd.backward
        torch.autograd.backward = self.backward

    def wrap(self, k, o):
        step = o.step

        def counted(*a, **kw):
            self.steps[k] += 1
            return step(*a, **kw)
        o.step = counted
        self.undo.append(lambda: o.__dict__.pop("step", None))

    def grads(self):
        return {k: [None if p.grad is None else p.grad.detach().clone() for p in m.parameters()] for k, (m, _) in self.nets.items()}

    def backward(self, tensors, *a, **kw):
        g0 = self.grads()
        ret = self.orig(tensors, *a, **kw)
        ts = [tensors] if torch.is_tensor(tensors) else list(tensors)
        if len(ts) == 1 and ts[0].numel() == 1:
            g1 = self.grads()
            for k in self.nets:
                if any((x is None) != (y is None) or x is not None and not torch.equal(x, y) for x, y in zip(g0[k], g1[k])):
                    self.losses[k].append(float(ts[0]))
                    break
            else:
                # no gradient at all: a loss of the network whose turn it is
                self.losses.setdefault("zero", []).append(float(ts[0]))
        return ret

    def close(self):
        torch.autograd.backward = self.orig
        for f in self.undo:
            f()


def tt(xs):
    return torch.as_tensor(np.stack([np.asarray(x) for x in xs]))


def compare(got, want, what):
    got, want = float(got), float(want)
    require(math.isnan(got) == math.isnan(want), "%s is %r instead of %r", what, got, want)
    if not math.isnan(want):
        require_close(got, want, what, rtol=2e-4, atol=2e-5)


# ---- off-policy agents

def run_replay(c):
    name = c["agent"]
    cfg = zoo.fix(name, dict(c["cfg"], noisy=False))
    cfg["batch"] = [1, 2, 4][cfg["batch"] % 3]
    cfg["start"] = max(cfg["start"], cfg["batch"])
    if c["long"]:
        cfg.update(interval=1, times=2 if name not in ("SAC", "SACauto") else 1)
    seed_all(c["seed"])
    ag = zoo.make(name, cfg)
    rec = name in zoo.RECURRENT_Q
    qlike = name in zoo.DISCRETE or rec
    if qlike:
        nets = dict(q=(ag.model, ag.optimizer))
    elif name == "DDPG":
        nets = dict(policy=(ag.policy, ag.actor_optimizer), q=(ag.q_function, ag.critic_optimizer))
    else:
        nets = dict(policy=(ag.policy, ag.policy_optimizer), q1=(ag.q_func1, ag.q_func1_optimizer),
                    q2=(ag.q_func2, ag.q_func2_optimizer))
        if name == "SACauto":
            nets["temperature"] = (ag.temperature_holder, ag.temperature_optimizer)
    w = Watch(ag, nets)
    preds = {k: [] for k in nets}
    buf = ag.replay_buffer
    ent = []

    def sampled(exps):
        if rec:
            return
        s, a = tt([e[0]["state"] for e in exps]), tt([e[0]["action"] for e in exps])
        with torch.no_grad():
            if qlike:
                if name != "IQN":
                    q = ag.model(s).q_values
                    preds["q"].extend(q[torch.arange(len(s)), a.long()].tolist())
            elif name != "DDPG":
                preds["q1"].extend(ag.q_func1((s, a)).flatten().tolist())
                preds["q2"].extend(ag.q_func2((s, a)).flatten().tolist())

    if not rec:
        osample = buf.sample

        def sample(n):
            out = osample(n)
            sampled(out)
            return out
        buf.sample = sample
    if name in ("SAC", "SACauto"):
        def hook(m, _, d):
            if torch.is_grad_enabled():
                lp = d.log_prob

                def log_prob(x):
                    y = lp(x)
                    ent.append((-y).detach().flatten().tolist())
                    return y
                d.log_prob = log_prob
        ag.policy.register_forward_hook(hook)
    reads, steps, at = 0, 0, set()

    def check(k):
        nonlocal reads
        st_ = dict(ag.get_statistics())
        what = "%s: %%s after %d rounds, %s updates" % (name, k, w.steps)
        if qlike:
            require_eq(st_["n_updates"], w.steps["q"], what % "n_updates")
            require_eq(st_["cumulative_steps"], steps, what % "cumulative_steps")
            require_eq(st_["rlen"], len(buf), what % "rlen")
            compare(st_["average_loss"], mean(w.losses["q"], 100), what % "average_loss")
            if not rec and name != "IQN":
                compare(st_["average_q"], mean(preds["q"], 1000), what % "average_q")
        elif name == "DDPG":
            require_eq(st_["n_updates"], w.steps["policy"], what % "n_updates")
            require_eq(w.steps["policy"], w.steps["q"], what % "updates of actor and critic")
            compare(st_["average_actor_loss"], mean(w.losses["policy"], 100), what % "average_actor_loss")
            compare(st_["average_critic_loss"], mean(w.losses["q"], 100), what % "average_critic_loss")
            q = [-x for x in w.losses["policy"] for _ in range(cfg["batch"])]
            compare(st_["average_q"], mean(q, 1000), what % "average_q")
        else:
            n = "policy_n_updates" if name == "TD3" else "n_updates"
            require_eq(st_[n], w.steps["policy"], what % n)
            if name == "TD3":
                require_eq(st_["q_func_n_updates"], w.steps["q1"], what % "q_func_n_updates")
                compare(st_["average_policy_loss"], mean(w.losses["policy"], 100), what % "average_policy_loss")
            else:
                compare(st_["average_entropy"], mean([x for y in ent for x in y], 1000), what % "average_entropy")
                t = 0.5 if name == "SAC" else float(torch.exp(ag.temperature_holder.log_temperature.detach()))
                compare(st_["temperature"], t, what % "temperature")
            for i in "12":
                compare(st_["average_q" + i], mean(preds["q" + i], 1000), what % ("average_q" + i))
                compare(st_["average_q_func%s_loss" % i], mean(w.losses["q" + i], 100), what % ("average_q_func%s_loss" % i))
        at.add(tuple(w.steps.values()))
        reads += 1

    try:
        rows = c["rows"] * (3 if c["long"] else 1)
        N = cfg["n_env"]
        for k, s in enumerate(zoo.world(c["seed"], N, rows)):
            zoo.step(ag, s, N == 1 and c["single"])
            steps += N
            if w.losses.get("zero"):
                return ["zero gradient"]        # which loss it was cannot be told
            if k % 5 == c["evals"]:
                with ag.eval_mode():
                    zoo.step(ag, s, False)
            if k % c["read"] == 0:
                check(k)
        check(len(rows))
    finally:
        w.close()
    labels = ["agent:" + name] + (["long"] if c["long"] else [])
    if max(map(len, w.losses.values())) > 100:
        labels.append("window of losses passed")
    return labels + (["nontrivial"] if len(at) >= 2 else [])


# ---- on-policy and asynchronous agents

def run_policy(c):
    name = c["agent"]
    cfg = zoo.fix(name, dict(c["cfg"], norm=False))
    N = cfg["n_env"]
    rec = name in ("RPPO", "RTRPO", "RA3C", "RACER", "RREINFORCE")
    extra, win, dec = {}, {}, {}
    if name in ("PPO", "PPOc", "RPPO"):
        win = dict(zip(("value", "entropy", "value_loss", "policy_loss"), c["windows"]))
        extra = dict(entropy_coef=0.0, value_func_coef=c["vcoef"])
    elif name in ("TRPO", "RTRPO"):
        win = dict(zip(("value", "entropy", "kl", "policy_step_size"), c["windows"]))
        extra = dict(max_kl=c["max_kl"], line_search_max_backtrack=c["backtrack"], conjugate_gradient_damping=1e-3)
    else:
        keys = ["entropy"] + (["value"] if "REINFORCE" not in name else []) + (["actor_loss"] if "A2C" in name else [])
        dec = dict(zip(keys, c["decays"]))
        if "A2C" in name:
            extra = dict(v_loss_coef=0.0, pi_loss_coef=c["vcoef"])
    extra.update({k + "_stats_window": v for k, v in win.items()})
    extra.update({"average_%s_decay" % k: v for k, v in dec.items()})
    seed_all(c["seed"])
    ag = zoo.make(name, dict(cfg, clipvf=None), extra=extra)
    single = name in zoo.SINGLE or N == 1 and c["single"]
    trpo, ppo, a2c, reinforce = "TRPO" in name, "PPO" in name, "A2C" in name, "REINFORCE" in name
    acts = ag.policy if trpo else ag.model          # the network that acts
    nets = (dict(v=(ag.vf, ag.vf_optimizer)) if trpo else dict(m=(ag.model if not hasattr(ag, "shared_model") else ag.shared_model, ag.optimizer)))
    w = Watch(ag, dict(nets, **({"local": (ag.model, nn_opt())} if hasattr(ag, "shared_model") else {})))
    ema = {k: 0.0 for k in dec}
    rec_lists = {k: [] for k in win}
    H = [None] * N
    HV = [None] * N
    trained = []                # outputs of the network with gradients: (inputs, distribution, values)
    vt = {}
    if ppo and not rec or a2c:
        ag.model.register_forward_hook(lambda m, i, o: trained.append((i[0].detach().clone(), o)) if torch.is_grad_enabled() else None)
    updates0 = [0]
    segs, mem = [[] for _ in range(N)], []
    ev = math.nan
    reads, at, rejected = 0, set(), False

    def forward(net, xs, hs):
        """Distribution's entropies and values for one observation per environment, each on its own."""
        es, vs = [], []
        with torch.no_grad():
            for i, x in enumerate(xs):
                x = torch.as_tensor(x)[None]
                if rec:
                    y, hs[i] = one_step_forward(net, x, hs[i])
                else:
                    y = net(x)
                y = y if isinstance(y, tuple) else (y,)
                es.append(float(y[0].entropy().reshape(-1)[0]) if hasattr(y[0], "entropy") else None)
                vs.append(float(y[-1].reshape(-1)[0]) if torch.is_tensor(y[-1]) else None)
        return es, vs

    def check(k):
        nonlocal reads
        st_ = dict(ag.get_statistics())
        n = w.steps["v" if trpo else "m"]
        what = "%s: %%s after %d rounds, %s optimizer steps" % (name, k, n)
        for q, v in ema.items():
            compare(st_[{"actor_loss": "average_actor"}.get(q, "average_" + q)], v, what % ("average of " + q))
        for q, v in rec_lists.items():
            if q in ("value", "entropy") or not rec:
                compare(st_["average_" + q], mean(v, win[q]), what % ("average_" + q))
        if ppo:
            require_eq(st_["n_updates"], n, what % "n_updates")
        if (ppo or trpo) and not rec:
            if abs(ev) < 50 or math.isnan(ev):
                require(math.isnan(st_["explained_variance"]) == math.isnan(ev), what % "explained_variance" + " is %s, expected %s", st_["explained_variance"], ev)
                if not math.isnan(ev):
                    require_close(st_["explained_variance"], ev, what % "explained_variance", rtol=1e-3, atol=1e-3)
        at.add(n)
        reads += 1

    def dataset(net_v):
        """Values, teachers of the transitions collected so far, by the present value function."""
        _, v = forward(net_v, [t["state"] for t in mem_all()], {})
        _, nv = forward(net_v, [t["next"] for t in mem_all()], {})
        it = iter(zip(v, nv))
        for s in mem + [x for x in segs if x]:
            for t in s:
                t["v"], t["nv"] = next(it)
            adv = 0.0
            for t in reversed(s):
                adv = t["reward"] + cfg["gamma"] * (0.0 if t["done"] else t["nv"]) - t["v"] + cfg["gamma"] * 0.95 * adv
                t["vt"] = adv + t["v"]
        T = np.array([t["vt"] for t in mem_all()])
        Y = np.array([t["v"] for t in mem_all()])
        return T, Y

    def mem_all():
        return [t for s in mem + [x for x in segs if x] for t in s]

    try:
        for k, (obs, rew, nxt, done, reset) in enumerate(zoo.world(c["seed"], N, c["rows"])):
            trained.clear()
            for q in w.losses:
                w.losses[q] = []
            a = [ag.act(obs[0])] if single else list(ag.batch_act(obs))
            if not a2c:
                if not trpo:
                    es, vs = forward(acts, obs, H)
                else:
                    es, _ = forward(ag.policy, obs, H)
                    _, vs = forward(ag.vf, obs, HV)
                for q in dec:
                    x = es[0] if q == "entropy" else vs[0]
                    ema[q] = dec[q] * ema[q] + (1 - dec[q]) * x
                for q in ("entropy", "value"):
                    if q in win:
                        rec_lists[q].extend(es if q == "entropy" else vs)
            for i in range(N):
                segs[i].append(dict(state=obs[i], next=nxt[i], reward=rew[i], done=done[i], a=a[i]))
            for i in range(N):
                if done[i] or reset[i]:
                    H[i] = HV[i] = None
                    mem.append(segs[i])
                    segs[i] = []
            due = (ppo or trpo) and len(mem_all()) >= cfg["interval"] + 3
            if due and not rec:
                T, Y = dataset(ag.vf if trpo else ag.model)
                ev = float(1 - np.var(T - Y) / np.var(T)) if np.var(T) > 0 else math.nan
                vt = {np.asarray(t["state"], dtype=np.float32).tobytes(): t["vt"] for t in mem_all()}
                if trpo:
                    S = tt([t["state"] for t in mem_all()])
                    before = [p.detach().clone() for p in ag.policy.parameters()]
                    with torch.no_grad():
                        old = ag.policy(S)
                        old = type(old)(logits=old.logits.clone())
            if single:
                ag.observe(nxt[0], rew[0], done[0], reset[0])
            else:
                ag.batch_observe(nxt, rew, done, reset)
            if a2c and trained:
                d = torch.cat([o[0].entropy().detach().flatten() for _, o in trained])
                v = torch.cat([o[1].detach().flatten() for _, o in trained])
                for q, x in (("entropy", float(d.mean())), ("value", float(v.mean())),
                             ("actor_loss", (float(np.sum(w.losses["m"])) + 0.01 * float(d.mean())) / c["vcoef"])):
                    ema[q] = dec[q] * ema[q] + (1 - dec[q]) * x
            if due:
                if trpo and not rec:
                    with torch.no_grad():
                        new = ag.policy(S)
                        kl = float(torch.distributions.kl_divergence(old, new).mean())
                        moved = any(not torch.equal(x, y) for x, y in zip(before, ag.policy.parameters()))
                    st_ = dict(ag.get_statistics())
                    if not moved and st_["average_policy_step_size"] == 1.0:
                        return ["step of length zero"]
                    if win["policy_step_size"] == 1:
                        x = st_["average_policy_step_size"]
                        require(x > 0 if moved else x == 0, "TRPO: step size is reported as %s, the policy did %smove", x, "" if moved else "not ")
                        rec_lists["policy_step_size"].append(x)
                    else:
                        rec_lists.pop("policy_step_size", None)
                    rejected |= not moved
                    if moved:
                        rec_lists["kl"].append(kl)
                elif ppo and not rec:
                    if len(trained) != len(w.losses["m"]):
                        raise HarnessError("forward passes and losses do not match")
                    for (x, o), total in zip(trained, w.losses["m"]):
                        y = np.array([vt[r.numpy().astype(np.float32).tobytes()] for r in x])
                        vl = float(np.mean((o[1].detach().numpy().flatten() - y) ** 2))
                        rec_lists["value_loss"].append(vl)
                        rec_lists["policy_loss"].append(total - c["vcoef"] * vl)
                mem.clear()
                segs = [[] for _ in range(N)]
            if k % 4 == c["evals"]:
                st0 = repr(ag.get_statistics())
                with ag.eval_mode():
                    zoo.step(ag, (obs, rew, nxt, done, reset), single)
                require_eq(repr(ag.get_statistics()), st0, "%s: statistics after an evaluation step" % name)
            if k % c["read"] == 0:
                check(k)
        check(len(c["rows"]))
    finally:
        w.close()
    return ["agent:" + name] + (["rejected step"] if rejected else []) + (["nontrivial"] if len(at) >= 2 else [])


def nn_opt():
    return torch.optim.SGD([nn.Parameter(torch.zeros(1))], lr=0.1)


common = dict(cfg=zoo.config(), seed=seeds, single=flag, evals=spread(0, 7), read=pick([1, 2, 7, 50]))
replay = st.fixed_dictionaries(dict(common, agent=pick(zoo.REPLAY), long=pick([False] * 7 + [True]), rows=sized_list(zoo.ROW, 4, 45)))
policy = st.fixed_dictionaries(dict(
    common, agent=pick(zoo.ONPOL + zoo.SINGLE), rows=sized_list(zoo.ROW, 4, 45), vcoef=pick([1.0, 0.5]), max_kl=pick([0.01, 0.5, 2.0]), backtrack=spread(0, 2),
    windows=sized_list(pick([1, 3, 10, 1000]), 4, 4), decays=sized_list(pick([0.0, 0.5, 0.9, 0.999]), 3, 3)))

SUBS = [
    Sub("replay", replay, run_replay, quick=500, thorough=8000, shards=4, axis=("agent", zoo.REPLAY)),
    Sub("policy", policy, run_policy, quick=500, thorough=8000, shards=4, axis=("agent", zoo.ONPOL + zoo.SINGLE)),
]
