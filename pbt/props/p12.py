"""P12: PPO estimates advantages by GAE and optimises the clipped surrogate."""
import copy
import math

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import agents as A
from pbt.core import HarnessError, Sub, require, require_close, require_eq, rng, seed_all
from pbt.gens import pick, flag, seeds, sized_list, spread
from pbt.props.p09 import sgd_reference

from pfrl.agents import PPO

RULE = """A case is a PPO configuration (discounts, clipping, coefficients, update interval,
minibatch size, epochs, standardization, recurrent or not) and a history of steps, terminations
and resets over 1-3 environments. The minibatches are recognised by the unique states fed to the
network. Non-trivial: an update from at least two transitions of two different segments, or over
several minibatches, which moved the parameters well above the tolerance."""
ASSUMPTIONS = [
    "parameters after an update compared at 2e-3 of the largest change (several SGD steps)",
    "cases in which a probability ratio or value lies within 1e-4 of a clipping point are skipped",
    "with recurrent models fewer than one minibatch of transitions may be left out per epoch"]


class Norm(torch.nn.Module):
    """Fixed normalizer that records what it experienced."""

    def __init__(self):
        super().__init__()
        self.seen = []

    def experience(self, x):
        self.seen.append(x.detach().clone())

    def forward(self, x, update=True):
        if update:
            raise HarnessError("normalizer asked to update itself while being applied")
        return x * 0.5 + 0.1


def gae(segment, gamma, lambd):
    adv = 0.0
    for t in reversed(segment):
        live = 0.0 if t["done"] else 1.0
        delta = t["reward"] + gamma * live * t["next_v"] - t["v"]
        adv = delta + gamma * lambd * adv
        t["adv"] = adv
        t["vt"] = adv + t["v"]


class NearClip(Exception):
    pass


def losses(case, lp, ent, v, t, adv):
    """Loss of one transition: policy, value, entropy."""
    ratio = torch.exp(lp - t["lp"])
    e = case["clip_eps"]
    if min(abs(float(ratio) - 1 - e), abs(float(ratio) - 1 + e)) < 1e-4:
        raise NearClip
    pol = -torch.min(ratio * adv, torch.clamp(ratio, 1 - e, 1 + e) * adv)
    val = (v - t["vt"]) ** 2
    ev = case["clip_vf"]
    if ev is not None:
        mag = max(1.0, abs(float(v)), abs(t["v"]), abs(t["vt"]))
        if abs(abs(float(v) - t["v"]) - ev) < 1e-4 * mag:
            raise NearClip
        vc = torch.clamp(v, t["v"] - ev, t["v"] + ev)
        val2 = (vc - t["vt"]) ** 2
        if float(vc) != float(v) and abs(float(val) - float(val2)) < 1e-5 * mag ** 2:
            raise NearClip
        val = torch.max(val, val2)
    return pol + case["vf_coef"] * val - case["ent_coef"] * ent


def apply_step(ref, loss, lr, max_norm):
    deltas, _ = sgd_reference(ref, loss, lr, max_norm)
    with torch.no_grad():
        for p, d in zip(ref.parameters(), deltas):
            p.add_(d)


def compare(before, model, ref, what):
    size = max(float((b - p.detach()).abs().max()) for b, p in zip(before, ref.parameters()))
    for (k, p), q, b in zip(model.named_parameters(), ref.parameters(), before):
        require_close((p.detach() - b), (q.detach() - b), "%s: change of %s" % (what, k),
                      rtol=2e-3, atol=1e-5, scale=max(size, 1e-2))
    return size


def run(case):
    r = rng(case["seed"])
    seed_all(case["seed"])
    rec = case["recurrent"]
    N, L = case["n_env"], case["lr"]
    if rec:
        model = A.RACNet(kind=case["rnn"])
    else:
        model = A.ACNet(gauss=case["gauss"])
    A.randomize(model, case["seed"], 0.6)
    norm = Norm() if case["norm"] else None
    f = case["factor"]
    interval, mb = case["interval"] * f, min(case["mb"], case["interval"]) * f
    ag = PPO(model, A.sgd(model, L), obs_normalizer=norm, gamma=case["gamma"],
             lambd=case["lambd"], value_func_coef=case["vf_coef"], entropy_coef=case["ent_coef"],
             update_interval=interval, minibatch_size=mb, epochs=case["epochs"],
             clip_eps=case["clip_eps"], clip_eps_vf=case["clip_vf"],
             standardize_advantages=case["std"], recurrent=rec,
             max_recurrent_sequence_len=case["max_len"] if rec else None,
             max_grad_norm=case["max_norm"])
    ref = copy.deepcopy(model)
    prep = (lambda x: x * 0.5 + 0.1) if norm else (lambda x: x)
    open_seg = [[] for _ in range(N)]
    memory = []
    rs = [None] * N           # recurrent state of each environment
    labels, nt = set(), False
    single = N == 1 and case["single"]

    def tens(x):
        return prep(torch.tensor(x))

    for what, step in A.drive(ag, N, case["rows"] * f, r, single):
        if what == "acted":
            model.calls.clear()
            if rec:
                with torch.no_grad():
                    for i, t in enumerate(step):
                        t["rs"] = rs[i]
                        _, _, rs[i] = ref.one(tens(t["state"]), rs[i])
                        t["next_rs"] = rs[i]
            continue
        for i, t in enumerate(step):
            open_seg[i].append(t)
            if t["done"] or t["reset"]:
                memory.append(open_seg[i])
                open_seg[i] = []
                rs[i] = None
        size = sum(map(len, memory)) + sum(map(len, open_seg))
        if size < interval:
            require(not model.calls, "model trained on %d transitions, before the update "
                    "interval %d", size, interval)
            for p, q in zip(model.parameters(), ref.parameters()):
                require(torch.equal(p, q), "parameters changed without an update")
            continue
        # ---- an update is due
        segs = memory + [s for s in open_seg if s]
        memory, open_seg = [], [[] for _ in range(N)]
        before = [p.detach().clone() for p in ref.parameters()]
        with torch.no_grad():
            for seg in segs:
                if rec:
                    h, hn = seg[0]["rs"], seg[0]["next_rs"]
                for t in seg:
                    s, sn = tens(t["state"]), tens(t["next_state"])
                    if rec:
                        d, v, h = ref.one(s, h)
                        _, vn, hn = ref.one(sn, hn)
                    else:
                        d, v = ref(s[None])
                        _, vn = ref(sn[None])
                    t["lp"] = float(d.log_prob(torch.as_tensor(t["action"])[None]))
                    t["v"], t["next_v"] = float(v), float(vn)
                gae(seg, case["gamma"], case["lambd"])
        data = [t for seg in segs for t in seg]
        by_key = {A.key(prep(torch.tensor(t["state"]))): t for t in data}
        require_eq(len(by_key), len(data), "unique states")
        advs = np.array([t["adv"] for t in data])
        mean, std = advs.mean(), advs.std()
        if case["std"] and std < 1e-3:
            return ["degenerate"]
        if norm:
            got = torch.cat([x.reshape(-1, 3) for x in norm.seen]) if norm.seen else []
            require_eq(sorted(A.key(x) for x in got), sorted(A.key(t["state"]) for t in data),
                       "states experienced by the normalizer")
            norm.seen.clear()
        counts = {k: 0 for k in by_key}
        total = 0
        ref.calls.clear()
        n_batches = len(model.calls)
        D = len(data)
        if rec:
            require_eq(n_batches, case["epochs"] * (D // mb), "number of minibatches")
        else:
            require_eq(n_batches, math.ceil(case["epochs"] * D / mb), "number of minibatches")
        for b, call in enumerate(model.calls):
            seqs = call if rec else [x[None] for x in call]
            require_eq(sum(len(s) for s in seqs), mb, "size of minibatch %d" % b)
            loss, n = 0.0, 0
            for seq in seqs:
                ts = [by_key.get(A.key(x)) for x in seq]
                require(all(t is not None for t in ts),
                        "trained on a state that is not part of the collected transitions")
                if rec:
                    require(case["max_len"] is None or len(ts) <= case["max_len"],
                            "sequence longer than the limit")
                    for t1, t2 in zip(ts, ts[1:]):
                        require(any(t1 is s[i] and t2 is s[i + 1] for s in segs
                                    for i in range(len(s) - 1)), "sequence is not consecutive")
                h = ts[0]["rs"] if rec else None
                for t in ts:
                    counts[A.key(prep(torch.tensor(t["state"])))] += 1
                    x = tens(t["state"])
                    if rec:
                        d, v, h = ref.one(x, h)
                    else:
                        d, v = ref(x[None])
                    adv = (t["adv"] - mean) / (std + 1e-8) if case["std"] else t["adv"]
                    try:
                        loss = loss + losses(
                            case, d.log_prob(torch.as_tensor(t["action"])[None])[0],
                            d.entropy()[0], v.reshape(()), t, adv)
                    except NearClip:
                        return ["near-clip"]
                    n += 1
            total += n
            apply_step(ref, loss / n, L, case["max_norm"])
            if not max(float(p.detach().abs().max()) for p in ref.parameters()) < 50:
                return ["diverged"]   # rounding errors grow without bound
            if rec:
                if (b + 1) % (D // mb) == 0:
                    require(max(counts.values()) <= (b + 1) // (D // mb),
                            "a transition was used twice in one epoch")
            else:
                lo, hi = total // D, -(-total // D)
                require(min(counts.values()) >= lo and max(counts.values()) <= hi,
                        "after %d minibatches of %d from %d transitions some were used %d and "
                        "some %d times", b + 1, mb, D, min(counts.values()), max(counts.values()))
        model.calls.clear()
        ref.calls.clear()
        moved = compare(before, model, ref, "PPO update")
        A.load(ref, model)
        labels.add("update")
        if D >= 2 and moved > 1e-3 and (len(segs) > 1 or n_batches > 1):
            nt = True
        if any(s[-1]["reset"] and not s[-1]["done"] for s in segs):
            labels.add("interrupted")
        if any(s[-1]["done"] for s in segs):
            labels.add("terminated")
    return sorted(labels) + (["nontrivial"] if nt else [])


def strategy(rec):
    row = st.one_of(st.just(0), st.just(0), st.integers(0, 63))
    return st.fixed_dictionaries(dict(
        recurrent=st.just(rec), seed=seeds, n_env=pick([1, 2, 3, 1, 2, 3, 6]), single=flag,
        rows=sized_list(row, 2, 14), interval=spread(2, 9), factor=pick([1] * 12 + [12]), mb=spread(1, 6), epochs=spread(1, 3),
        gamma=pick([0.9, 0.99, 0.5, 1.0]), lambd=pick([0.95, 0.5, 0.0, 1.0]),
        vf_coef=pick([1.0, 0.5, 0.0]), ent_coef=pick([0.0, 0.01, 0.3]),
        clip_eps=pick([0.2, 0.05, 0.01]), clip_vf=pick([None, None, 0.1, 0.01]),
        std=flag, gauss=flag, norm=flag,
        rnn=pick(["gru", "lstm"]), max_len=pick([None, 1, 2, 3]),
        max_norm=pick([None, None, 0.1]), lr=pick([0.1, 0.3])))


QUICK_SCALE = 2

SUBS = [
    Sub("stateless", lambda: strategy(False), run, quick=320, shards=4),
    Sub("recurrent", lambda: strategy(True), run, quick=200, shards=4),
]
