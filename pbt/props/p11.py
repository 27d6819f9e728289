"""P11: deterministic and soft actor-critic updates implement their objectives."""
import copy
import math

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import agents as A
from pbt.core import Sub, require, require_close, require_freq, rng, seed_all
from pbt.gens import pick, flag, rewards, seeds, sized_list, spread
from pbt.props.p09 import compare_step, named_before, sgd_reference, window_facts

from pfrl import agents, replay_buffers
from pfrl.agents.td3 import default_target_policy_smoothing_func

RULE = """A case is an agent (DDPG, TD3, SAC with fixed or learned temperature), random networks and
targets, and one to six consecutive batches of 1- to 4-step windows. After every update all
networks, targets and the temperature are compared with an independently written step.
Non-trivial: a batch of at least two windows, one of them not terminal, and a change of actor or
critic well above the tolerance."""
ASSUMPTIONS = ["parameter changes of one SGD step compared at 5e-4 of the largest change",
               "policies sample with fixed noise, so that the random draw is not predicted"]


def smoothing(a):
    return torch.clamp(a * 0.7 + 0.2, -0.8, 0.9)


def make_exps(windows, r, rscale=1.0):
    exps = []
    for w in windows:
        n = len(w["rewards"])
        states = [r.randn(3).astype(np.float32) for _ in range(n + 1)]
        exps.append([dict(state=states[i], action=r.uniform(-1, 1, 2).astype(np.float32),
                          reward=rew * rscale, next_state=states[i + 1], next_action=None,
                          is_state_terminal=bool(w["term"] and i == n - 1))
                     for i, rew in enumerate(w["rewards"])])
    return exps


def q1(q, s, a):
    return q((s[None], a[None])).reshape(())


def one(policy, s, grad):
    d = policy(s[None])
    a = d.rsample() if grad else d.sample()
    return a[0], d, a


def soft(before_t, src, tau):
    return {k: (1 - tau) * before_t[k] + tau * p.detach()
            for k, p in src.named_parameters()}


def check_target(mod, want, what):
    for k, p in mod.named_parameters():
        require_close(p, want[k], "%s: %s" % (what, k), rtol=1e-4, atol=1e-6)


def run_update(case):
    r = rng(case["seed"])
    seed_all(case["seed"])
    name, gamma, lr, tau = case["agent"], case["gamma"], 0.3, case["tau"]
    sc = case["scale"]
    qf1 = A.randomize(A.SAQ(), case["seed"], sc)
    qf2 = A.randomize(A.SAQ(), case["seed"] + 1, sc)
    gauss = name.startswith("SAC") or case["gauss"]
    pol = A.randomize(A.GaussNet(noise=case["noise"]) if gauss else A.det_policy(), case["seed"] + 2, sc)
    buf = replay_buffers.ReplayBuffer(10)
    kw = dict(replay_start_size=5, minibatch_size=5, soft_update_tau=tau)
    phi = (lambda x: x * np.float32(0.5)) if case["phi"] else (lambda x: x)
    kw["phi"] = phi
    clip = case["max_norm"] if name != "DDPG" else None
    sac = name.startswith("SAC")
    temp, temp_opt = None, None
    if name == "DDPG":
        ag = agents.DDPG(pol, qf1, A.sgd(pol, lr), A.sgd(qf1, lr), buf, gamma,
                         A.greedy_explorer(), **kw)
        tg = dict(policy=ag.target_policy, q1=ag.target_q_function)
        nets = dict(policy=pol, q1=qf1)
    elif name == "TD3":
        ag = agents.TD3(pol, qf1, qf2, A.sgd(pol, lr), A.sgd(qf1, lr), A.sgd(qf2, lr), buf, gamma,
                        A.greedy_explorer(), max_grad_norm=clip, policy_update_delay=case["delay"],
                        target_policy_smoothing_func=smoothing, **kw)
        tg = dict(policy=ag.target_policy, q1=ag.target_q_func1, q2=ag.target_q_func2)
        nets = dict(policy=pol, q1=qf1, q2=qf2)
    else:
        tkw = {}
        if name == "SAC-auto":
            tkw = dict(entropy_target=case["entropy_target"],
                       temperature_optimizer_lr=case["temp_lr"])
            temp = torch.nn.Parameter(torch.tensor(math.log(case["temp"]), dtype=torch.float32))
            temp_opt = torch.optim.Adam([temp], lr=case["temp_lr"] or 1e-3)
        ag = agents.SoftActorCritic(pol, qf1, qf2, A.sgd(pol, lr), A.sgd(qf1, lr), A.sgd(qf2, lr),
                                    buf, gamma, max_grad_norm=clip,
                                    initial_temperature=case["temp"], **tkw, **kw)
        tg = dict(q1=ag.target_q_func1, q2=ag.target_q_func2)
        nets = dict(policy=pol, q1=qf1, q2=qf2)
    for i, m in enumerate(tg.values()):
        A.randomize(m, case["seed"] + 10 + i, sc)
    with torch.no_grad():  # large values
        for m in [qf1, qf2] + [m for k, m in tg.items() if k != "policy"]:
            m.l2.weight.mul_(case["qbig"])
    nt, labels, n_upd = False, [name], 0
    wild = clip is None and max(case["qbig"], case["rscale"]) > 1  # one unclipped step ruins the networks
    for windows in case["batches"][:1] if wild else case["batches"]:
        exps = make_exps(windows, r, case["rscale"])
        ref = {k: copy.deepcopy(m) for k, m in nets.items()}
        rt = {k: copy.deepcopy(m) for k, m in tg.items()}
        before = {k: named_before(m) for k, m in nets.items()}
        tbefore = {k: named_before(m) for k, m in tg.items()}
        for m in list(ref.values()) + list(rt.values()):
            m.requires_grad_(True)
            m.zero_grad()
        alpha = None
        if sac:
            alpha = case["temp"] if temp is None else float(torch.exp(temp.detach()))
        # critic targets
        S, SN, ACT, T = [], [], [], []
        for e in exps:
            ret, disc, term = window_facts(e, gamma)
            s = torch.tensor(phi(e[0]["state"]))
            sn = torch.tensor(phi(e[-1]["next_state"]))
            S.append(s)
            ACT.append(torch.tensor(e[0]["action"]))
            with torch.no_grad():
                if name == "DDPG":
                    a, _, _ = one(rt["policy"], sn, False)
                    v = float(q1(rt["q1"], sn, a))
                elif name == "TD3":
                    a, _, _ = one(rt["policy"], sn, False)
                    a = smoothing(a)
                    v = min(float(q1(rt["q1"], sn, a)), float(q1(rt["q2"], sn, a)))
                else:
                    a, d, ab = one(ref["policy"], sn, False)
                    v = min(float(q1(rt["q1"], sn, a)), float(q1(rt["q2"], sn, a)))
                    v -= alpha * float(d.log_prob(ab)[0])
            T.append(ret + (0.0 if term else disc * v))
        n = len(exps)
        deltas = {}
        factor = 0.5 if sac else 1.0
        for k in [k for k in ref if k.startswith("q")]:
            loss = sum(factor * (q1(ref[k], s, a) - t) ** 2
                       for s, a, t in zip(S, ACT, T)) / n
            deltas[k], _ = sgd_reference(ref[k], loss, lr, clip)
            with torch.no_grad():
                for p, d in zip(ref[k].parameters(), deltas[k]):
                    p.add_(d)
        # actor, with the updated critics
        n_upd += 1
        policy_step = name != "TD3" or n_upd % case["delay"] == 0
        logps = []
        if policy_step:
            total = 0.0
            for s in S:
                a, d, ab = one(ref["policy"], s, True)
                qa = q1(ref["q1"], s, a)
                if sac:
                    qb = q1(ref["q2"], s, a)
                    if abs(float(qa) - float(qb)) < 1e-4:
                        return ["near-tie"]
                    lp = d.log_prob(ab)[0]
                    logps.append(float(lp))
                    total = total + alpha * lp - torch.min(qa, qb)
                else:
                    total = total - qa
            deltas["policy"], _ = sgd_reference(ref["policy"], total / n, lr, clip)
        else:
            deltas["policy"] = [torch.zeros_like(p) for p in ref["policy"].parameters()]
        if temp is not None:
            temp_opt.zero_grad()
            loss = -torch.exp(temp) * (np.mean(logps) + case["entropy_target"])
            loss.backward()
            if clip is not None:
                g = float(temp.grad)
                if abs(g) > clip:
                    temp.grad.mul_(clip / abs(g))
            temp_opt.step()

        ag.update(exps)

        sizes = {}
        for k in nets:
            sizes[k] = compare_step(before[k], list(nets[k].parameters()), deltas[k],
                                    "%s %s (update %d)" % (name, k, n_upd))
        for k, m in tg.items():
            if name == "DDPG" or not policy_step:
                want = tbefore[k]
            else:
                want = soft(tbefore[k], nets[k], tau)
            check_target(m, want, "%s target %s" % (name, k))
        if sac:
            want = case["temp"] if temp is None else float(torch.exp(temp.detach()))
            require_close(ag.temperature, want, "temperature", rtol=1e-4, atol=1e-6)
            if temp is not None:
                with torch.no_grad():  # no drift between reference and agent
                    temp.fill_(math.log(ag.temperature))
        if n >= 2 and any(not e[-1]["is_state_terminal"] for e in exps) and (
                sizes["q1"] > 1e-2 or sizes["policy"] > 1e-2):
            nt = True
        if max(sizes.values()) > 10:
            labels.append("diverged")  # from here on rounding errors grow without bound
            break
    return (["nontrivial"] if nt else []) + labels


window = st.fixed_dictionaries(dict(
    rewards=st.lists(rewards, min_size=1, max_size=4), term=pick([False, False, True])))


def strategy():
    return st.fixed_dictionaries(dict(
        agent=pick(["DDPG", "TD3", "SAC", "SAC-auto"]), seed=seeds,
        batches=sized_list(st.lists(window, min_size=1, max_size=5),
                          1, 6), rscale=pick([1.0] * 6 + [100.0]), qbig=pick([1.0] * 6 + [600.0]),
        noise=pick([[0.3, -0.7], [0.3, -0.7], [-4.0, 3.5], [9.0, 7.0]]),
        gamma=st.one_of(pick([0.5, 0.9, 0.99, 1.0]),
                        spread(0, 100).map(lambda x: x / 100)),
        tau=pick([0.005, 0.1, 0.5, 1.0]), scale=pick([0.3, 0.7]),
        gauss=flag, phi=flag, max_norm=pick([None, None, 0.1, 1.0]),
        delay=spread(1, 3), temp=pick([1.0, 0.2, 0.05, 3.0, 0.001, 20.0]),
        entropy_target=pick([-2.0, 0.5, -0.1]),
        temp_lr=pick([None, 1e-2, 0.1])))


def run_smoothing(case):
    """The default smoothing adds clipped noise around the action and stays in [-1, 1]."""
    seed_all(case["seed"])
    n = 4000
    a = torch.tensor(case["action"], dtype=torch.float32)[None].repeat(n, 1)
    keep = a.clone()
    out = default_target_policy_smoothing_func(a)
    require(torch.equal(a, keep), "the given actions were modified")
    require(out.shape == a.shape, "shape changed")
    require(float(out.min()) >= -1 and float(out.max()) <= 1, "action outside [-1, 1]")
    d = out - a
    require(float(d.abs().max()) <= 0.5 + 1e-6, "noise exceeds its clipping range")
    # frequencies of the noise for components away from the bounds
    for j, c in enumerate(case["action"]):
        if abs(c) > 0.45:
            continue
        x = d[:, j].numpy()
        cdf = [0.5 * (1 + math.erf(v / (0.2 * math.sqrt(2)))) for v in (-0.3, -0.1, 0.1, 0.3)]
        probs = np.diff([0.0] + cdf + [1.0])
        counts = np.histogram(x, [-1, -0.3, -0.1, 0.1, 0.3, 1])[0]
        require_freq(counts, probs, n, "smoothing noise")
        return ["nontrivial"]
    return []


def smooth_strategy():
    return st.fixed_dictionaries(dict(seed=seeds, action=st.lists(
        spread(-100, 100).map(lambda x: x / 100), min_size=1, max_size=3)))


QUICK_SCALE = 2.5

SUBS = [
    Sub("update", strategy, run_update, quick=800, shards=7),
    Sub("smoothing", smooth_strategy, run_smoothing, quick=60),
]
