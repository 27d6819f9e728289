"""P14: returns and gradients of the on-policy policy-gradient agents (A2C, A3C, REINFORCE)."""
import copy
import warnings

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from pbt import agents as A
from pbt.core import Sub, Violation, require, require_eq, rng, seed_all
from pbt.gens import pick, flag, seeds, sized_list, spread
from pbt.props.p12 import apply_step, compare

import pfrl
from pfrl.agents import A2C, A3C, REINFORCE
from pfrl.utils.batch_states import batch_states

warnings.filterwarnings("ignore", category=UserWarning)

RULE = """A case is a history of act/observe calls over 1-3 environments (one for A3C and REINFORCE)
with random rewards, terminations, interruptions and interleaved evaluation, with random
coefficients; at every step the parameters have to equal those of a reference that computes the
returns from the definition and differentiates the loss itself. Non-trivial: at least one update
happened on two or more transitions."""
ASSUMPTIONS = [
    "A2C treats an interruption like a termination, REINFORCE drops interrupted episodes (both say "
    "so in a warning)",
    "float32 comparison: 2e-3 of the largest change",
]


class Pol(nn.Module):
    def __init__(self, gauss):
        super().__init__()
        self.l1, self.gauss = nn.Linear(3, 4), gauss
        self.l2 = nn.Linear(4, 6 if gauss else 3)

    def forward(self, x):
        z = self.l2(torch.tanh(self.l1(x)))
        if self.gauss:
            return torch.distributions.Independent(torch.distributions.Normal(
                z[..., :3], nn.functional.softplus(z[..., 3:]) + 0.2), 1)
        return torch.distributions.Categorical(logits=z)


class RPol(pfrl.nn.Recurrent, nn.Module):
    def __init__(self):
        super().__init__()
        self.l1, self.rnn, self.l2 = nn.Linear(3, 3), nn.GRU(3, 3), nn.Linear(3, 3)

    def forward(self, pack, rs):
        P = nn.utils.rnn.PackedSequence
        h = torch.tanh(self.l1(pack.data))
        out, rs = self.rnn(P(h, pack.batch_sizes, pack.sorted_indices, pack.unsorted_indices), rs)
        return torch.distributions.Categorical(logits=self.l2(out.data)), rs

    def one(self, x, rs):
        out, rs = self.rnn(torch.tanh(self.l1(x[None]))[None], rs)
        return torch.distributions.Categorical(logits=self.l2(out[0])), rs


def half(states, device, phi):
    return batch_states(states, device, phi) * 0.5


def unchanged(model, before, what):
    for p, b in zip(model.parameters(), before):
        require(torch.equal(p.detach(), b), what)


def snap(m):
    return [p.detach().clone() for p in m.parameters()]


def poke(ag, n, r, single):
    """Interaction in evaluation mode between two training steps."""
    with ag.eval_mode():
        for _ in range(2):
            o = [r.randn(3).astype(np.float32) for _ in range(n)]
            ends = [bool(r.randint(2)) for _ in range(n)]
            if single:
                ag.act(o[0])
                ag.observe(o[0], 1.0, ends[0], ends[0])
            else:
                ag.batch_act(o)
                ag.batch_observe(o, [1.0] * n, ends, ends)


def act_of(t):
    return torch.as_tensor(np.asarray(t["action"]))[None]


# ------------------------------------------------------------------ A2C
def run_a2c(case):
    r = rng(case["seed"])
    seed_all(case["seed"])
    N, T, lr, g = case["n_env"], case["steps"], 0.1, case["gamma"]
    model = A.randomize(A.ACNet(gauss=case["gauss"]), case["seed"], 0.6)
    ag = A2C(model, A.sgd(model, lr), gamma=g, num_processes=N, update_steps=T,
             pi_loss_coef=case["pi"], v_loss_coef=case["v"], entropy_coeff=case["ent"],
             use_gae=case["gae"], tau=case["tau"], max_grad_norm=case["max_norm"],
             batch_states=half if case["custom"] else batch_states)
    if case["offset"]:  # as the training functions do to resume
        ag.t = case["offset"]
    ref = copy.deepcopy(model)
    before = snap(model)
    roll, nt, labels = [], False, set()
    single = N == 1 and case["single"]
    k = 0

    def prep(x):
        return torch.tensor(x)[None] * (0.5 if case["custom"] else 1.0)

    for what, step in A.drive(ag, N, case["rows"], r, single, rscale=case["rscale"]):
        if what == "acted":
            unchanged(model, before, "A2C parameters changed by acting")
            if case["rows"][k] & 64:
                poke(ag, N, rng(case["seed"] + k), single)
                labels.add("evaluated")
            k += 1
            continue
        roll.append(step)
        if len(roll) < T:
            unchanged(model, before, "A2C parameters changed without a full rollout")
            continue
        loss_pi = loss_v = ent = 0.0
        for i in range(N):
            seq = [s[i] for s in roll]
            with torch.no_grad():
                v = [float(ref(prep(t["state"]))[1]) for t in seq]
                boot = float(ref(prep(seq[-1]["next_state"]))[1])
            R, gae = boot, 0.0
            nv = boot
            for j in reversed(range(T)):
                t = seq[j]
                live = 0.0 if (t["done"] or t["reset"]) else 1.0
                if case["gae"]:
                    delta = t["reward"] + g * live * nv - v[j]
                    gae = delta + g * case["tau"] * live * gae
                    R = gae + v[j]
                    nv = v[j]
                else:
                    R = t["reward"] + g * live * R
                d, val = ref(prep(t["state"]))
                loss_v = loss_v + (R - val.reshape(())) ** 2
                loss_pi = loss_pi - (R - v[j]) * d.log_prob(act_of(t)).reshape(())
                ent = ent + d.entropy().reshape(())
        n = N * T
        apply_step(ref, (case["v"] * loss_v + case["pi"] * loss_pi - case["ent"] * ent) / n, lr,
                   case["max_norm"])
        compare(before, model, ref, "A2C update")
        A.load(ref, model)
        before = snap(model)
        roll = []
        nt = nt or n >= 2
    return sorted(labels) + (["nontrivial"] if nt else [])


ROW = st.one_of(st.just(0), st.just(0), spread(0, 127))


def common():
    return dict(seed=seeds, gamma=pick([0.9, 0.99, 1.0, 0.5]),
                pi=pick([1.0, 0.5]), v=pick([0.5, 1.0, 0.25]),
                max_norm=pick([None, 0.1, 40.0]), gauss=flag,
                rows=sized_list(ROW, 1, 14), single=flag, custom=flag,
                rscale=pick([1.0] * 4 + [50.0]))


def a2c_strategy():
    return st.fixed_dictionaries(dict(
        common(), n_env=pick([1, 2, 3, 1, 2, 3, 7]), steps=pick([1, 2, 3, 4, 5, 9]), ent=pick([0.01, 0.0, 0.3]),
        gae=flag, tau=pick([0.95, 0.5, 0.0, 1.0]), offset=pick([0, 0, 1, 7, 1000])))


# ------------------------------------------------------------------ A3C
def run_a3c(case):
    r = rng(case["seed"])
    seed_all(case["seed"])
    T, lr, g, rec = case["steps"], 0.1, case["gamma"], case["recurrent"]
    if rec:
        model = A.RACNet(kind=case["rnn"])
    else:
        model = A.ACNet(gauss=case["gauss"])
    A.randomize(model, case["seed"], 0.6)
    model.share_memory()
    ag = A3C(model, A.sgd(model, lr), t_max=T, gamma=g, beta=case["ent"],
             pi_loss_coef=case["pi"], v_loss_coef=case["v"], keep_loss_scale_same=case["keep"],
             normalize_grad_by_t_max=case["normalize"], max_grad_norm=case["max_norm"],
             recurrent=rec, process_idx=case["proc"],
             batch_states=half if case["custom"] else batch_states)
    ref = copy.deepcopy(model)
    before = snap(model)
    seg, nt, labels = [], False, set()
    rs, k = None, 0

    def prep(x):
        return torch.tensor(x) * (0.5 if case["custom"] else 1.0)

    for what, step in A.drive(ag, 1, case["rows"], r, True, rscale=case["rscale"]):
        t = step[0]
        if what == "acted":
            unchanged(model, before, "A3C shared parameters changed by acting")
            t["rs"] = rs
            if rec:
                with torch.no_grad():
                    _, _, rs = ref.one(prep(t["state"]), rs)
            if case["rows"][k] & 64:
                poke(ag, 1, rng(case["seed"] + k), True)
                labels.add("evaluated")
            k += 1
            continue
        seg.append(t)
        if not (len(seg) == T or t["done"] or t["reset"]):
            unchanged(model, before, "A3C shared parameters changed inside a segment")
            continue
        n = len(seg)

        def fwd(x, h):
            if rec:
                d, v, h = ref.one(prep(x), h)
                return d, v, h
            d, v = ref(prep(x)[None])
            return d, v, None

        with torch.no_grad():
            R = 0.0 if t["done"] else float(fwd(t["next_state"], rs)[1])
        outs, h = [], seg[0]["rs"]
        for u in seg:
            d, v, h = fwd(u["state"], h)
            outs.append((d, v.reshape(())))
        fpi, fv = case["pi"], case["v"]
        if case["keep"]:
            fpi, fv = fpi * T / n, fv * T / n
        if case["normalize"]:
            fpi, fv = fpi / n, fv / n
        loss = 0.0
        for u, (d, v) in reversed(list(zip(seg, outs))):
            R = u["reward"] + g * R
            adv = R - float(v)
            loss = loss + fpi * (-adv * d.log_prob(act_of(u)).reshape(())
                                 - case["ent"] * d.entropy().reshape(()))
            loss = loss + fv * 0.5 * (v - R) ** 2
        apply_step(ref, loss, lr, case["max_norm"])
        compare(before, model, ref, "A3C update")
        for p, q in zip(model.parameters(), ag.model.parameters()):
            require(torch.equal(p.detach(), q.detach()), "A3C local model differs from the shared "
                    "model after an update")
        A.load(ref, model)
        before = snap(model)
        labels.add("terminal" if t["done"] else "cut")
        if rec:
            labels.add("recurrent")
        seg = []
        nt = nt or n >= 2
        if t["done"] or t["reset"]:
            rs = None
    return sorted(labels) + (["nontrivial"] if nt else [])


def a3c_strategy():
    return st.fixed_dictionaries(dict(
        common(), steps=spread(1, 5), ent=pick([0.01, 0.0, 0.3]), keep=flag,
        normalize=flag, recurrent=flag, rnn=pick(["gru", "lstm"]),
        proc=spread(0, 1)))


# ------------------------------------------------------------------ REINFORCE
def run_reinforce(case):
    r = rng(case["seed"])
    seed_all(case["seed"])
    lr, rec, B = 0.1, case["recurrent"], case["batch"]
    model = A.randomize(RPol() if rec else Pol(case["gauss"]), case["seed"], 0.6)
    ag = REINFORCE(model, A.sgd(model, lr), beta=case["ent"], batchsize=B,
                   backward_separately=case["separate"], recurrent=rec,
                   max_grad_norm=case["max_norm"],
                   batch_states=half if case["custom"] else batch_states)
    ref = copy.deepcopy(model)
    before = snap(model)
    ep, eps, nt, labels, k = [], [], False, set(), 0

    def prep(x):
        return torch.tensor(x) * (0.5 if case["custom"] else 1.0)

    for what, step in A.drive(ag, 1, case["rows"], r, True, rscale=case["rscale"]):
        t = step[0]
        if what == "acted":
            unchanged(model, before, "REINFORCE parameters changed by acting")
            if case["rows"][k] & 64:
                poke(ag, 1, rng(case["seed"] + k), True)
                labels.add("evaluated")
            k += 1
            continue
        ep.append(t)
        if t["done"]:
            eps.append(ep)
        if t["done"] or t["reset"]:
            if not t["done"]:
                labels.add("dropped")
            ep = []
        if len(eps) < B:
            unchanged(model, before, "REINFORCE parameters changed before %d episodes ended" % B)
            continue
        loss = 0.0
        for e in eps:
            h, outs = None, []
            for u in e:
                if rec:
                    d, h = ref.one(prep(u["state"]), h)
                else:
                    d = ref(prep(u["state"])[None])
                outs.append(d)
            R = 0.0
            for u, d in reversed(list(zip(e, outs))):
                R += u["reward"]
                loss = loss - R * d.log_prob(act_of(u)).reshape(()) - case[
                    "ent"] * d.entropy().reshape(())
        apply_step(ref, loss / B, lr, case["max_norm"])
        compare(before, model, ref, "REINFORCE update")
        A.load(ref, model)
        before = snap(model)
        nt = nt or sum(map(len, eps)) >= 2
        if B > 1:
            labels.add("several-episodes")
        eps = []
    return sorted(labels) + (["nontrivial"] if nt else [])


def reinforce_strategy():
    row = st.one_of(st.just(0), st.just(1), spread(0, 127), pick([2, 3]))
    return st.fixed_dictionaries(dict(
        common(), rows=sized_list(row, 2, 20), ent=pick([0.0, 0.01, 0.3]),
        batch=spread(1, 3), separate=flag, recurrent=flag))


QUICK_SCALE = 4

SUBS = [
    Sub("a2c", a2c_strategy, run_a2c, quick=250, shards=3),
    Sub("a3c", a3c_strategy, run_a3c, quick=250, shards=3),
    Sub("reinforce", reinforce_strategy, run_reinforce, quick=250, shards=2),
]
